"""C25: regression outputs are in the units of the response."""
from .iface import *


def xdata(p, n):
    return np.array([[((3 * i + 5 * j) % 7) + .5 * i for j in range(n)] for i in range(p)], np.float32)


def minmax(y):
    lo = hi = y[0]
    for v in y[1:]:
        lo, hi = ite(v < lo, v, lo), ite(v > hi, v, hi)
    return lo, hi


def units(k, n, p=2, nt=2, d=2, m=2, sched=(2, 1, 1), ydt=np.float32, ylim=None, offset=False, kk=False, usequants=False, maxdepth=None, series=False):
    """ offset, scale, the sampler's response, predictions and standard deviations """
    ndpost, nskip, keepevery = sched
    T = nskip + ndpost * keepevery
    numcut = 3
    x = xdata(p, n)
    xt = xdata(p, n + m)[:, n:]

    def inputs():
        a = dict(y=run.sym_real('y', (n,)) if np.dtype(ydt).kind == 'f' else run.sym_int('y', (n,), ydt, *(ylim or ())),
                 table=table_inputs(T, nt, d, p, numcut), lamda=run.sym_real('lamda', (), pos=True))
        if offset:
            a['offset'] = run.sym_real('offset', ()) if offset is True else offset
        if kk:
            a['k'] = run.sym_real('k', (), pos=True)
        return a,

    def fn(a):
        kw = {i: a[i] for i in ('offset', 'k') if i in a}
        if offset is not True and 'offset' in kw:
            kw['offset'] = offset  # Python number
        y = a['y']
        if series:
            y = (pandas_series if series == 'pandas' else polars_series)(y)
        bart, state, _ = fit(a['table'], jnp.asarray(x), y, x_test=jnp.asarray(xt), usequants=usequants, lamda=a['lamda'], ntree=nt, numcut=numcut,
                             maxdepth=d, ndpost=ndpost, nskip=nskip, keepevery=keepevery, **kw)
        return dict(state={f: state[f] for f in ('y', 'X', 'resid', 'max_split')}, train=bart.yhat_train, train_mean=bart.yhat_train_mean,
                    test=bart.yhat_test, test_mean=bart.yhat_test_mean, later=bart.predict(jnp.asarray(xt)),
                    sigma=bart.sigma, first=bart.first_sigma, offset=scalar(bart.offset), scale=scalar(bart.scale), lamda=scalar(bart.lamda),
                    ntree=jnp.asarray(bart.ntree), maxdepth=jnp.asarray(bart.maxdepth),
                    testX=prepcovars.bin_predictors(jnp.asarray(xt), bart._splits) if hasattr(bart, '_splits') else None)

    def goals(args, out, draws):
        a, = args
        y = list(reals(a['y']))
        o, s = reals(out['offset']), reals(out['scale'])
        mean = total(y) * (1 / n) if n else R.of(0)
        g = []
        shapes = dict(train=(ndpost, n), train_mean=(n,), test=(ndpost, m), test_mean=(m,), later=(ndpost, m), sigma=(ndpost,), first=(nskip,),
                      offset=(), scale=(), lamda=())
        for f, w in shapes.items():
            g.append((f'shape of {f}: {np.shape(out[f])}', tuple(np.shape(out[f])) == w))
        if not all(f for _, f in g):
            return g
        want = reals(a['offset']) if offset else None
        g.append(('offset', close(o, want) if offset else close(o * n, total(y)) if n else close(o, 0.)))
        if n < 2:
            g.append(('scale', close(s, 1.)))
        else:
            lo, hi = minmax(y)
            kv = reals(a['k']) if kk else R.of(2.)
            g.append(('scale', close(s * 2 * kv, hi - lo)))
        g.append(('lamda', close(reals(out['lamda']), reals(a['lamda']))))
        g.append(('ntree, maxdepth', And(ints(out['ntree']) == nt, ints(out['maxdepth']) == d)))
        sy = reals(out['state']['y'])
        for i in range(n):
            g.append((f'response {i}', close(sy[i] * s, y[i] - o)))
            g.append((f'residual {i}', close(reals(out['state']['resid'])[i] * s, y[i] - o)))
        F = forests(a['table'])
        sig = reals(a['table']['sigma2'])
        idx = saved(ndpost, nskip, keepevery)
        X = ints(out['state']['X'])
        for name, XX, N_ in (('train', X, n), ('test', ints(out['testX']) if out['testX'] is not None else None, m)):
            if XX is None:
                continue
            tr = reals(out[name])
            for j in range(N_):
                pts = list(XX[:, j])
                for q, t in enumerate(idx):
                    g.append((f'{name} {q}: point {j}', close(tr[q, j], o + s * total(f.value(pts) for f in F[t]))))
                if ndpost:
                    g.append((f'{name} mean: {j}', close(reals(out[name + '_mean'])[j] * ndpost, total(tr[:, j]))))
        for j in np.ndindex(ndpost, m):
            g.append((f'later: {j}', close(reals(out['later'])[j], reals(out['test'])[j])))
        for q, t in enumerate(idx):
            v = reals(out['sigma'])[q]
            g.append((f'sigma: {q}', close(v, s * sig[t].sqrt())))
        for t in range(nskip):
            g.append((f'first sigma: {t}', close(reals(out['first'])[t], s * sig[t].sqrt())))
        return g

    def pre(args):
        y = list(reals(args[0]['y']))
        if n < 2:
            return []
        lo, hi = minmax(y)
        return [hi > lo]
    name = (f'units n={n} p={p} trees={nt} d={d} test={m} ndpost,nskip,keepevery={sched} y:{np.dtype(ydt).name}' + (f' offset {"symbolic" if offset is True else offset}' if offset else '')
            + (' k' if kk else '') + (' quantiles' if usequants else '') + (f' {series} series' if series else ''))
    Harness(k, name, inputs=inputs, fn=fn, goals=goals, pre=pre, raises=True, samples=2, bounds=name)


def affine(k, n, p=1, lamda=True, kk=False, ints_=False):
    """ y -> a y + b, a > 0 """
    nt, d, T, m = 1, 2, 2, 1
    x = xdata(p, n)

    def inputs():
        t = table_inputs(T, nt, d, p, 2)
        return run.sym_real('y', (n,)), run.sym_real('a', (), pos=True), run.sym_real('b', ()), run.sym_real('lamda', (), pos=True), t

    def fn(y, a, b, lam, table):
        out = []
        for yy, l in ((y, lam), (a * y + b, a * a * lam)):
            bart, state, _ = fit(table, jnp.asarray(x), yy, x_test=jnp.asarray(x[:, :m]), lamda=l if lamda else None, ntree=nt, maxdepth=d, numcut=2, ndpost=1, nskip=1)
            out.append(dict(state=state, train=bart.yhat_train, test=bart.yhat_test, sigma=bart.sigma, first=bart.first_sigma, offset=scalar(bart.offset),
                            scale=scalar(bart.scale), lamda=scalar(bart.lamda), mean=bart.yhat_train_mean))
        return out

    def goals(args, out, draws):
        y, a, b, lam, table = args
        a, b = reals(a), reals(b)
        o, q = out
        g = []
        for f in o['state']:
            u, v = (jax.tree_util.tree_leaves(z['state'][f], is_leaf=run.leaf) for z in out)
            for c, e in zip(u, v):
                r = [close(A, B) for A, B in zip(np.ravel(reals(c)), np.ravel(reals(e)))] if I.dt_of(c).kind == 'f' else \
                    [A == B for A, B in zip(np.ravel(ints(c)), np.ravel(ints(e)))] if I.dt_of(c).kind in 'iu' else []
                g += [(f'initial state {f}: {j}', w) for j, w in enumerate(r)]
        for f in ('offset', 'train', 'test', 'mean'):
            g += [(f'{f}: {j}', close(B, a * A + b)) for j, (A, B) in enumerate(zip(np.ravel(reals(o[f])), np.ravel(reals(q[f]))))]
        for f in ('scale', 'sigma', 'first'):
            g += [(f'{f}: {j}', close(B, a * A)) for j, (A, B) in enumerate(zip(np.ravel(reals(o[f])), np.ravel(reals(q[f]))))]
        g.append(('lamda', close(reals(q['lamda']), a * a * reals(o['lamda']))))
        return g

    def pre(args):
        lo, hi = minmax(list(reals(args[0])))
        return [hi > lo, reals(args[1]) > .01]
    name = f'affine n={n} p={p} lamda {"given" if lamda else "default"}'
    Harness(k, name, inputs=inputs, fn=fn, goals=goals, pre=pre, raises=True, samples=2, bounds=name)


def main(k):
    k.assumptions += ['the trees and variances sampled are arbitrary (the step is replaced by a table of symbolic trees)',
                      'exact arithmetic; the response is not constant (its range, and so the scale, would be zero)',
                      'the error scale is given, or not estimated by linear regression (see N03)']
    k.outside.append('predictors are concrete here (their binning is C19, C20, C21, C26)')
    with patched():
        units(k, 3, sched=(3, 1, 1))
        units(k, 2, sched=(2, 2, 2), offset=True)
        units(k, 3, kk=True, sched=(1, 0, 3))
        units(k, 3, d=3, nt=2, sched=(1, 1, 1), usequants=True)
        for t in (np.int8, np.uint8, np.int16):
            units(k, 2, ydt=t, sched=(1, 1, 1), d=1)
            if t is not np.int16:
                units(k, 2, ydt=t, sched=(1, 1, 1), d=1, offset=50)
        units(k, 2, ydt=np.int32, ylim=(-2 ** 20, 2 ** 20), sched=(1, 1, 1), d=1)
        units(k, 1, sched=(1, 1, 1))
        units(k, 1, sched=(1, 1, 1), kk=True, offset=True)
        units(k, 0, sched=(1, 1, 1), usequants=True)
        units(k, 3, sched=(1, 1, 1), series='pandas', offset=True, kk=True)
        units(k, 3, sched=(1, 1, 1), series='polars')
        units(k, 2, sched=(0, 1, 1), m=0)
        affine(k, 2)
        affine(k, 3)
        affine(k, 2, p=2, lamda=False)
        if k.thorough:
            units(k, 5, p=2, nt=3, d=3, m=3, sched=(3, 2, 2), kk=True, offset=True)
            affine(k, 4)
            affine(k, 5)
            affine(k, 4, p=5, lamda=False)
