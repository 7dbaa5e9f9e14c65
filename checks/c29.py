"""C29: prior settings reach the sampler."""
import inspect

from .iface import *

SIG = inspect.signature(mcmcloop.run_mcmc)


def power(x, p):
    """ x^p for a small number x >= 1 """
    return float(x) ** float(p)


def depth_of(node):
    return int(node).bit_length() - 1


def boolean(x):
    return x if isinstance(x, z3.ExprRef) else z3.BoolVal(bool(x))


def fields(state):
    """ parts of the initial state that are returned from the traced function """
    return {f: state[f] for f in state if hasattr(state[f], 'shape')}


def harness(k, name, n=2, p=1, nt=2, d=2, pw=2, base=True, sigdf=True, numcut=2, usequants=False, symy=True, symx=False, init=None, seed=None, xdt=np.float32,
            timeout=150, sched=(1, 0, 1), tree=None):
    """ init: function () -> dict of extra initialization options, symbolic values included """
    ndpost, nskip, keepevery = sched
    yc = np.array([1., -2., 4., .5, 3., -1., 2., 0., 7., 5., -3., 6.] * 2, np.float32)[:n]
    xc = np.array([[((3 * i + 5 * j) % 7) + .5 * i for j in range(n)] for i in range(p)]).astype(xdt)

    def inputs():
        a = dict(lamda=run.sym_real('lamda', (), pos=True), table=table_inputs(nskip + ndpost * keepevery, *(tree or (nt, d)), p, numcut, concrete=True))
        if base:
            a['base'] = run.sym_real('base', (), pos=True)
        if sigdf is True:
            a['sigdf'] = run.sym_real('sigdf', (), pos=True)
        if symy:
            a['y'] = run.sym_real('y', (n,))
        if symx:
            a['x'] = run.sym_real('x', (p, n)) if np.dtype(xdt).kind == 'f' else run.sym_int('x', (p, n), xdt)
        if seed == 'symbolic':
            a['seed'] = run.sym_int('seed', (), np.int32)
        if init:
            a['init'] = init()
        return a,

    def fn(a):
        kw = dict(ntree=nt, numcut=numcut, maxdepth=d, power=pw, usequants=usequants, ndpost=ndpost, nskip=nskip, keepevery=keepevery)
        if base:
            kw['base'] = a['base']
        if sigdf is True:
            kw['sigdf'] = a['sigdf']
        elif sigdf:
            kw['sigdf'] = sigdf
        static = {f: v for f, v in (STATIC.get(name) or {}).items()}
        if init or static:
            kw['initkw'] = dict(a.get('init', {}), **static)
        if seed is not None:
            kw['seed'] = a['seed'] if seed == 'symbolic' else jax.random.key(seed[0]) if isinstance(seed, tuple) else seed
        x = a.get('x', jnp.asarray(xc))
        y = a.get('y', jnp.asarray(yc))
        bart, state, (args, kws) = fit(a['table'], x, y, lamda=a['lamda'], **kw)
        b = SIG.bind(state, *args, **kws)
        b.apply_defaults()
        b = b.arguments
        f = prepcovars.quantilized_splits_from_matrix if usequants else prepcovars.uniform_splits_from_matrix
        splits, max_split = f(jnp.asarray(x), numcut + 1)
        opt = CALLS[0][0]['opt']
        return dict(state=fields(state), scale=scalar(bart.scale), offset=scalar(bart.offset), key=jax.random.key_data(b['key']),
                    args=jnp.array([int(b['n_burn']), int(b['n_save']), int(b['n_skip'])]),
                    opt=jnp.array([-1 if opt[o] is None else int(opt[o]) for o in ('require_min_points', 'resid_batch_size', 'count_batch_size')]),
                    small=jnp.zeros((), opt['small_float']), large=jnp.zeros((), opt['large_float']),
                    ref=dict(X=prepcovars.bin_predictors(x, splits), max_split=max_split))

    def goals(args, out, draws):
        a, = args
        st = out['state']
        over = dict(a.get('init', {}), **(STATIC.get(name) or {}))
        T = int(over.get('num_trees', nt))
        D = np.shape(over['p_nonterminal'])[0] + 1 if 'p_nonterminal' in over else d
        g = []
        mp = over.get('min_points_per_leaf', 5)
        shapes = dict(leaf_trees=(T, 2 ** D), var_trees=(T, 2 ** (D - 1)), split_trees=(T, 2 ** (D - 1)), resid=(n,), y=(n,), sigma2=(), p_nonterminal=(D,),
                      p_propose_grow=(2 ** (D - 1),), sigma2_alpha=(), sigma2_beta=(), max_split=(p,), X=(p, n), leaf_indices=(T, n))
        if mp is not None:
            shapes.update(affluence_trees=(T, 2 ** (D - 1)), min_points_per_leaf=())
        g += [(f'shape of {f}: {np.shape(st.get(f))}, expected {w}', f in st and tuple(np.shape(st[f])) == w) for f, w in shapes.items()]
        if mp is None:
            g += [(f'{f} should not be there', f not in st) for f in ('affluence_trees', 'min_points_per_leaf')]
        if not all(f for _, f in g):
            return g
        pn = reals(st['p_nonterminal'])
        if 'p_nonterminal' in over:
            w = reals(over['p_nonterminal'])
            g += [(f'nonterminal probability given at depth {i}', close(pn[i], w[i])) for i in range(D - 1)]
        else:
            b = reals(a['base']) if base else R.of(.95)
            for i in range(D - 1):
                err = pn[i] * power(i + 1, pw) - b  # up to the rounding of the power
                g.append((f'nonterminal probability at depth {i}', And(err <= b * 1e-5, err >= b * -1e-5)))
        g.append(('nonterminal probability at the bottom', close(pn[D - 1], 0.)))
        pg = reals(st['p_propose_grow'])
        g += [(f'grow weight of node {i}', close(pg[i], pn[depth_of(i)])) for i in range(1, 2 ** (D - 1))]
        df = reals(a['sigdf']) if sigdf is True else R.of(float(sigdf or 3))
        s, lam = reals(out['scale']), reals(a['lamda'])
        alpha, beta = reals(st['sigma2_alpha']), reals(st['sigma2_beta'])
        g.append(('shape of the prior on the variance', close(alpha, reals(over['sigma2_alpha'])) if 'sigma2_alpha' in over else close(alpha * 2, df)))
        g.append(('scale of the prior on the variance', close(beta, reals(over['sigma2_beta'])) if 'sigma2_beta' in over else close(beta * s * s * 2, df * lam)))
        if not {'sigma2_alpha', 'sigma2_beta'} & set(over):
            g.append(('initial variance', close(reals(st['sigma2']) * s * s, lam)))
        if mp is not None:
            g.append(('minimum points per leaf', ints(st['min_points_per_leaf']) == (ints(mp) if hasattr(mp, 'shape') else mp)))
            aff = st['affluence_trees']
            aff = I.to_cells(aff)
            mv = ints(mp) if hasattr(mp, 'shape') else mp
            for t, i in (j for j in np.ndindex(*aff.shape) if j[1]):
                w = z3.BoolVal(False) if i != 1 else mv * 2 <= n
                g.append((f'tree {t} node {i} has enough points', boolean(aff[t, i]) == boolean(w)))
        opt = ints(out['opt'])
        g.append(('minimum points per leaf required', opt[0] == int(mp is not None)))
        for i, f in ((1, 'resid_batch_size'), (2, 'count_batch_size')):
            if f in over:
                g.append((f, opt[i] == (-1 if over[f] is None else over[f])))
        for f, w in (('small', over.get('small_float', np.float32)), ('large', over.get('large_float', np.float32))):
            g.append((f'{f} float type', I.dt_of(out[f]).np == np.dtype(w)))
        g.append(('save ratios', ('ratios' in CALLS[0][0]) == bool(over.get('save_ratios', False))) if CALLS else ('state recorded', False))
        g += [(f'initial {f}', And(*(c == 0 for c in np.ravel(ints(st[f]))))) for f in ('var_trees', 'split_trees')]
        g.append(('initial leaves', And(*(close(c, 0.) for c in np.ravel(reals(st['leaf_trees']))))))
        for f in ('X', 'max_split'):
            g += [(f'{f} {i}', u == v) for i, (u, v) in enumerate(zip(np.ravel(ints(st[f])), np.ravel(ints(out['ref'][f]))))]
        g += [(f'schedule {i}', ints(out['args'])[i] == v) for i, v in enumerate((nskip, ndpost, keepevery))]
        kd = ints(out['key'])
        if seed == 'symbolic':
            v = ints(a['seed'])
            w = [0, ite(v < 0, v + 2 ** 32, v)]
        else:
            w = [int(c) for c in np.asarray(jax.random.key_data(jax.random.key(seed[0] if isinstance(seed, tuple) else seed or 0)))]
        g += [(f'random key {i}', kd[i] == w[i]) for i in range(2)]
        return g

    def pre(args):
        a, = args
        f = []
        if 'y' in a and n > 1:
            y = list(reals(a['y']))
            f.append(reals(a['y'])[0] - y[1] > .01)
        f.append(reals(a['lamda']) > .001)
        if 'base' in a:
            f += [reals(a['base']) > .001, reals(a['base']) < 1]
        if 'sigdf' in a:
            f += [reals(a['sigdf']) > .01, reals(a['sigdf']) < 1000]
        return f

    full = (f'{name}: n={n} p={p} trees={nt} maxdepth={d} power={pw} numcut={numcut} {"quantiles" if usequants else "uniform"} x:{np.dtype(xdt).name}'
            + (' symbolic' if symx else ''))
    Harness(k, full, inputs=inputs, fn=fn, goals=goals, pre=pre, raises=True, samples=2, bounds=full, timeout=timeout)


STATIC = {}


def main(k):
    k.assumptions += ['exact arithmetic; the scale of the error is given (see C31 for its default)',
                      'the step is replaced, only the state the sampler is started with is considered']
    with patched():
        for d in (1, 2, 3, 6):
            harness(k, f'prior d={d}', d=d, nt=2 if d < 4 else 1)
        for pw in (0, 1, 3, .5):
            harness(k, f'prior power={pw}', d=4, nt=1, pw=pw)
        harness(k, 'defaults', base=False, sigdf=None, d=3)
        harness(k, 'degrees of freedom', sigdf=5, n=3)
        harness(k, 'one point', n=1, nt=3)
        harness(k, 'no points', n=0, usequants=True, symy=False, d=2)
        for n in (9, 10, 12):
            harness(k, f'points {n}', n=n, symy=False, d=3, p=2)
        harness(k, 'uniform bins', n=3, p=2, symx=True, symy=False, numcut=4)
        harness(k, 'uniform bins', n=2, p=1, symx=True, symy=False, numcut=256)
        harness(k, 'quantile bins', n=4, p=1, symx=True, symy=False, usequants=True, xdt=np.int8, numcut=2)
        harness(k, 'quantile bins', n=3, p=2, symx=True, symy=False, usequants=True, xdt=np.int16, numcut=3)
        harness(k, 'seed', seed='symbolic', sched=(2, 1, 3))
        harness(k, 'seed', seed=7, sched=(1, 2, 1))
        harness(k, 'seed key', seed=(11,), sched=(1, 0, 2))
        STATIC['trees'] = dict(num_trees=3, save_ratios=True)
        harness(k, 'trees', nt=1, tree=(3, 2))
        STATIC['batch'] = dict(resid_batch_size=2, count_batch_size=None, min_points_per_leaf=None)
        harness(k, 'batch', n=4, symy=False)
        STATIC['batch2'] = dict(resid_batch_size=None, count_batch_size=3, min_points_per_leaf=0)
        harness(k, 'batch2', n=4, symy=False)
        harness(k, 'overrides', init=lambda: dict(sigma2_alpha=run.sym_real('alpha', (), pos=True), min_points_per_leaf=run.sym_int('mp', (), np.int32, 0, 100)), n=6, symy=False)
        harness(k, 'overrides', init=lambda: dict(sigma2_beta=run.sym_real('beta', (), pos=True)))
        harness(k, 'overrides', init=lambda: dict(p_nonterminal=run.sym_real('pn', (3,), pos=True)), d=2, tree=(2, 4))
        if k.thorough:
            for pw in (0, 1, 2, 3, .5, 1.5):
                for d in (1, 2, 3, 4, 5, 6, 7, 8):
                    harness(k, f'prior power={pw} d={d}', d=d, nt=1, pw=pw, n=3)
            harness(k, 'uniform bins', n=4, p=3, symx=True, symy=False, numcut=5)
            harness(k, 'quantile bins', n=6, p=2, symx=True, symy=False, usequants=True, xdt=np.int8, numcut=3)
