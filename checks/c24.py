"""C24: the MCMC loop saves exactly the scheduled iterations."""
import contextlib

from .mcmc import *
from bartz import mcmcloop
from symx.spec import F64, I64

BURNIN = 'sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'
MAIN = BURNIN + ('leaf_trees', 'var_trees', 'split_trees')
REC = []


def fake_step(bart, key):
    """
    an arbitrary step: everything changes at each iteration, some fields with the random draw of the iteration and some
    in a way that identifies the iteration
    """
    z = jax.random.normal(key, (), jnp.float32)
    return dict(
        bart,
        sigma2=bart['sigma2'] + z,
        leaf_trees=2 * bart['leaf_trees'] + z,
        var_trees=bart['var_trees'] + bart['split_trees'],
        split_trees=bart['split_trees'] + 1,
        resid=-bart['resid'],
        grow_prop_count=bart['grow_prop_count'] + 1,
        grow_acc_count=bart['grow_acc_count'] + bart['grow_prop_count'],
        prune_prop_count=3 * bart['prune_prop_count'] + 1,
        prune_acc_count=bart['prune_acc_count'] ^ bart['grow_prop_count'],
    )


@contextlib.contextmanager
def patched():
    orig = mcmcstep.step
    alias = [m for m in (mcmcloop,) if getattr(m, 'step', None) is orig]
    mcmcstep.step = fake_step
    for m in alias:
        m.step = fake_step
    jax.clear_caches()
    try:
        yield
    finally:
        mcmcstep.step = orig
        for m in alias:
            m.step = orig
        jax.clear_caches()


def loop(bart, nb, ns, nk, key, static=None):
    """ the real loop; the callback reports the values it is called with """
    def record(*a):
        REC.append([np.asarray(x) for x in a])

    def callback(*, bart, burnin, i_total, i_skip, n_burn, n_save, n_skip):
        jax.debug.callback(record, i_total, i_skip, burnin, n_burn, n_save, n_skip, bart['sigma2'], bart['grow_prop_count'],
                           bart['split_trees'][-1, -1])
    return mcmcloop.run_mcmc(bart, nb, ns, nk, callback, key)


FIELDS = tuple(dict.fromkeys(MAIN + ('resid',)))


def values(x):
    """ cells with their type, for exact comparison """
    return I.to_cells(x), I.dt_of(x)


def same(a, b):
    """ equality of two arrays, element by element, as a formula """
    (x, s), (y, t) = values(a), values(b)
    if x.shape != y.shape or s is not t:
        return False
    out = []
    for i in np.ndindex(*x.shape):
        out.append(close(R(C.f2f(x[i], s, F64)), R(C.f2f(y[i], s, F64))) if s.kind == 'f' else C.i_cmp('eq', x[i], y[i], s) if s.kind in 'iu' else x[i] == y[i])
    return C.And(*[f if C.isb(f) else C.zb(f) for f in out]) if out else True


def pick(x, i):
    if isinstance(x, SA):
        return SA(x.dt, I.oarr(x.c[i]) if not isinstance(x.c[i], np.ndarray) else x.c[i])
    return np.asarray(x)[i]


def harness(k, T, schedules, ratios=False, cfg=None):
    """ all the schedules with T iterations, against the one that saves every iteration """
    cfg = cfg or Cfg(2, 1, 1, 1, ratios=ratios)

    def inputs():
        b = dict(init_state(cfg))
        for f in FIELDS:
            a = b[f]
            b[f] = run.sym_real(f, a.shape, a.dtype) if jnp.issubdtype(a.dtype, jnp.floating) else run.sym_int(f, a.shape, a.dtype)
        if ratios:
            b['ratios'] = {n: run.sym_real('ratio_' + n, a.shape, a.dtype) for n, a in b['ratios'].items()}
        return b, I.root_key()

    def fn(bart, key):
        out = []
        for s in [(0, T, 1)] + schedules:
            out.append(loop(bart, *s, key))
        return out

    def goals(args, out, draws):
        b0 = args[0]
        g = []
        # what the callback received
        if any(isinstance(x, SA) for x in jax.tree_util.tree_leaves(args, is_leaf=run.leaf)):
            calls = [ins for _, ins, _ in CTX.effects]
            g += [('callback: called at each iteration', C.And(*(C.zb(c) for c in guards))) for *_, guards in CTX.effects if guards]
        else:
            calls = sorted(REC, key=lambda r: tuple(int(x) for x in (r[3], r[4], r[5], r[0])))
        ref = out[0][2]
        for f in MAIN:
            if f not in ref or tuple(np.shape(ref[f])) != (T,) + tuple(np.shape(b0[f])):
                g.append((f'reference: field {f}', False))
        if g:
            return g
        # the reference run is a sequence of steps
        used = []
        for t in range(T):
            old = {f: b0[f] if t == 0 else pick(ref[f], t - 1) for f in MAIN}
            new = {f: pick(ref[f], t) for f in MAIN}
            z = reals(new['sigma2']) - reals(old['sigma2'])
            used.append(z)
            g.append((f'step: the draw of iteration {t} is one of the random values', any_([close(z, d.value) for d in draws if d.kind == 'normal'])))
            for i in np.ndindex(*np.shape(new['leaf_trees'])):
                g.append((f'step: leaves {t} {i}', close(reals(new['leaf_trees'])[i], 2 * reals(old['leaf_trees'])[i] + z)))
            o, n = ({f: ints(x[f]) for f in MAIN if f not in ('sigma2', 'leaf_trees')} for x in (old, new))
            def eq(f, v):
                """ equal in the arithmetic of the type, which may wrap around """
                dt = I.dt_of(new[f])
                v = np.ravel(v)
                return all_([C.i_cmp('eq', C.i_convert(b.c, I64, dt), a, dt) for a, b in zip(np.ravel(I.to_cells(new[f])), v)])
            g.append((f'step: counters {t}', And(eq('grow_prop_count', o['grow_prop_count'] + 1), eq('grow_acc_count', o['grow_acc_count'] + o['grow_prop_count']),
                                                 eq('prune_prop_count', 3 * o['prune_prop_count'] + 1))))
            g.append((f'step: trees {t}', And(eq('split_trees', o['split_trees'] + 1), eq('var_trees', o['var_trees'] + o['split_trees']))))
        pos = 0
        for s, (final, burnin, main) in zip([(0, T, 1)] + schedules, out):
            nb, ns, nk = s
            at = lambda t, f: b0[f] if t == 0 else pick(ref[f], t - 1)
            for trace, names, times, what in ((burnin, BURNIN, [t + 1 for t in range(nb)], 'burn-in'),
                                              (main, MAIN, [nb + (j + 1) * nk for j in range(ns)], 'main')):
                for f in names:
                    if f not in trace:
                        g.append((f'{s}: {f} is in the {what} trace', False))
                        continue
                    a = trace[f]
                    if tuple(np.shape(a)) != (len(times),) + tuple(np.shape(b0[f])):
                        g.append((f'{s}: length of the {what} trace of {f}: {np.shape(a)}', False))
                        continue
                    for j, t in enumerate(times):
                        g.append((f'{s}: {what} trace: {f} sample {j}', same(pick(a, j), at(t, f))))
                if ratios and len(times):
                    if 'ratios' in trace:
                        for n, a in trace['ratios'].items():
                            for j, t in enumerate(times):
                                g.append((f'{s}: {what} trace: ratios', same(pick(a, j), b0['ratios'][n])))
            for f in MAIN:
                g.append((f'{s}: final state: {f}', same(final[f], at(T, f))))
            g.append((f'{s}: final state: residuals', all_([close(a, (-1) ** T * b) for a, b in
                                                            zip(np.ravel(reals(final['resid'])), np.ravel(reals(b0['resid'])))])))
            for f in b0:
                if f not in FIELDS and f != 'ratios' and b0[f] is not None:
                    g.append((f'{s}: final state: {f} is not changed', f in final and all(
                        same(x, y) for x, y in zip(*(jax.tree_util.tree_leaves(q[f], is_leaf=run.leaf) for q in (final, b0))))))
        # callbacks
        n = len(schedules) + 1
        g.append((f'callback: number of calls {len(calls)}', len(calls) == n * T))
        if len(calls) == n * T:
            todo = sorted([(0, T, 1)] + schedules) if calls and not isinstance(calls[0][6], SA) else [(0, T, 1)] + schedules
            for s in todo:
                nb, ns, nk = s
                for t in range(T):
                    c = calls[pos]
                    pos += 1
                    expect = [t, t if t < nb else (t - nb) % nk, t < nb, nb, ns, nk]
                    ok = True
                    for name, a, v in zip(('i_total', 'i_skip', 'burnin', 'n_burn', 'n_save', 'n_skip'), c, expect):
                        x = I.to_cells(a)[()]
                        if isinstance(x, (bool, int, np.generic)):
                            f = int(x) == int(v)
                        else:
                            f = False
                        g.append((f'callback {s}: {name} at iteration {t}: {x}', f))
                    g.append((f'callback {s}: state at iteration {t}', And(close(reals(c[6]), reals(ref['sigma2'])[t]), same(c[7], pick(ref['grow_prop_count'], t)),
                                                                          same(c[8], pick(pick(ref['split_trees'], t), (-1, -1))))))
        return g

    with patched():
        Harness(k, f'{T} iterations' + (' with ratios' if ratios else ''), inputs=inputs, fn=fn, goals=goals, raises=True, samples=1,
                before=REC.clear, variants=1,
                bounds=f'{len(schedules) + 1} schedules (n_burn, n_save, n_skip) with {T} iterations: {schedules if len(schedules) < 8 else "all"}')


def main(k):
    k.assumptions += ['the step is replaced by an arbitrary function of state and random key that changes all the fields',
                      'the number of iterations is concrete, the state and the draws symbolic']
    for T in range(0, 7 if not k.thorough else 13):
        sch = [(nb, ns, nk) for nb in range(T + 1) for ns in range(T + 1) for nk in range(1, max(T, 2) + 1) if nb + ns * nk == T and (nb, ns, nk) != (0, T, 1)
               and (ns or nk <= 3)]
        harness(k, T, sch)
    harness(k, 4, [(2, 2, 1), (0, 2, 2), (2, 1, 2)], ratios=True)
    harness(k, 4, [(2, 2, 1), (0, 2, 2), (2, 1, 2)], cfg=Cfg(3, 2, 3, 3))
    harness(k, 260, [(257, 3, 1), (0, 1, 260), (2, 129, 2)])
