"""C26: predictions at the training points, binning of test points, data frames."""
from .iface import *

Y = [1., -2., 4., .5, 3.]


def frames(kind):
    """ how predictors and response are given: (predictors, response) """
    return dict(array=(lambda x: x, lambda y: y), pandas=(pandas_frame, pandas_series), polars=(polars_frame, polars_series))[kind]


def harness(k, n, m=1, p=2, nt=1, d=2, numcut=2, usequants=False, xdt=np.float32, tdt=None, kinds=('array',), maxval=None, timeout=150):
    tdt = tdt or xdt

    def sym(name, shape, dt):
        if np.dtype(dt).kind == 'f':
            return run.sym_real(name, shape, dt)
        return run.sym_int(name, shape, dt, *(maxval or ()))

    def inputs():
        return sym('x', (p, n), xdt), sym('t', (p, m), tdt), table_inputs(1, nt, d, p, numcut)

    def fn(x, t, table):
        out = {}
        y = jnp.asarray(Y[:n], jnp.float32)
        for kind in kinds:
            fx, fy = frames(kind)
            kw = dict(usequants=usequants, lamda=1., ntree=nt, numcut=numcut, maxdepth=d, ndpost=1, nskip=0)
            bart, state, _ = fit(table, fx(x), fy(y), x_test=fx(t), **kw)
            later, state2, _ = fit(table, fx(x), fy(y), **kw)
            out[kind] = dict(train=bart.yhat_train, same=bart.predict(fx(x)), test=bart.yhat_test, later=later.predict(fx(t)), again=bart.predict(fx(t)),
                             X=state['X'], max_split=state['max_split'], offset=scalar(bart.offset), scale=scalar(bart.scale), y=state['y'])
        f = prepcovars.quantilized_splits_from_matrix if usequants else prepcovars.uniform_splits_from_matrix
        splits, max_split = f(jnp.asarray(x), numcut + 1)
        out['ref'] = dict(X=prepcovars.bin_predictors(x, splits), T=prepcovars.bin_predictors(t, splits), max_split=max_split)
        return out

    def goals(args, out, draws):
        x, t, table = args
        g = []
        forest, = forests(table)
        X, T = ints(out['ref']['X']), ints(out['ref']['T'])
        eq = lambda a, b: [close(u, v) for u, v in zip(np.ravel(reals(a)), np.ravel(reals(b)))]
        for kind in kinds:
            r = out[kind]
            shapes = dict(train=(1, n), same=(1, n), test=(1, m), later=(1, m), again=(1, m), X=(p, n), max_split=(p,))
            g += [(f'{kind}: shape of {f}: {np.shape(r[f])}', tuple(np.shape(r[f])) == s) for f, s in shapes.items()]
            if not all(f for _, f in g):
                return g
            g += [(f'{kind} predict at the training points: {j}', f) for j, f in enumerate(eq(r['same'], r['train']))]
            g += [(f'{kind} predict later: {j}', f) for j, f in enumerate(eq(r['later'], r['test']))]
            g += [(f'{kind} predict again: {j}', f) for j, f in enumerate(eq(r['again'], r['test']))]
            o, s = reals(r['offset']), reals(r['scale'])
            for j in range(m):
                g.append((f'{kind} test points: {j}', close(reals(r['test'])[0, j], o + s * total(f.value(list(T[:, j])) for f in forest))))
            for j in range(n):
                g.append((f'{kind} training points: {j}', close(reals(r['train'])[0, j], o + s * total(f.value(list(X[:, j])) for f in forest))))
            if kind != kinds[0]:
                for f in ('train', 'test', 'offset', 'scale', 'y'):
                    g += [(f'{kind} same as with arrays: {f} {j}', c) for j, c in enumerate(eq(r[f], out[kinds[0]][f]))]
                g += [(f'{kind} same as with arrays: X {j}', a == b) for j, (a, b) in enumerate(zip(np.ravel(ints(r['X'])), np.ravel(ints(out[kinds[0]]['X']))))]
        return g

    name = (f'n={n} test={m} p={p} trees={nt} d={d} numcut={numcut} {"quantiles" if usequants else "uniform"} x:{np.dtype(xdt).name}'
            + (f' test:{np.dtype(tdt).name}' if tdt is not xdt else '') + f' {"/".join(kinds)}')
    Harness(k, name, inputs=inputs, fn=fn, goals=goals, raises=True, samples=2, bounds=name, timeout=timeout)


def real_frames(k):
    """ the stand-ins of the data frames agree with the libraries: same results on concrete data """
    rng = np.random.default_rng(1)
    for dt in (np.float32, np.float64, np.int64):
        x = (rng.normal(size=(2, 6)) * 10).astype(dt)
        t = (rng.normal(size=(2, 3)) * 10).astype(dt)
        y = rng.normal(size=6).astype(np.float32)
        cols = ['b', 'a']
        res = {}
        for kind, fx, fy in (('array', lambda v: jnp.asarray(v), lambda v: jnp.asarray(v)),
                             ('numpy', lambda v: v, lambda v: v),
                             ('pandas', lambda v: pd.DataFrame(v.T, columns=cols, index=np.arange(v.shape[1])[::-1]), lambda v: pd.Series(v, name='y', index=np.arange(6)[::-1])),
                             ('polars', lambda v: pl.DataFrame(v.T, schema=cols), lambda v: pl.Series('y', v))):
            try:
                b = gbart(fx(x), fy(y), x_test=fx(t), ntree=3, ndpost=2, nskip=1, numcut=5, lamda=1., maxdepth=3, initkw=dict(min_points_per_leaf=1))
                res[kind] = {f: np.asarray(v) for f, v in dict(train=b.yhat_train, test=b.yhat_test, same=b.predict(fx(x)), later=b.predict(fx(t)),
                                                               sigma=b.sigma, offset=b.offset, scale=b.scale).items()}
            except Exception as e:
                k.violation(f'real {kind} data ({np.dtype(dt).name}): fails with {type(e).__name__}: {str(e)[:200]}', dict(kind=kind))
                return
            r = res[kind]
            for f in r:
                if not np.array_equal(r[f], res['array'][f]):
                    k.violation(f'real {kind} data ({np.dtype(dt).name}): {f} differs from the one with arrays', dict(kind=kind, got=r[f], arrays=res['array'][f]))
                    return
            for a, b_ in (('train', 'same'), ('test', 'later')):
                if not np.array_equal(r[a], r[b_]):
                    k.violation(f'real {kind} data ({np.dtype(dt).name}): predictions {a} and {b_} differ', dict(kind=kind, a=r[a], b=r[b_]))
                    return
            k.samples += 1


def main(k):
    k.assumptions += ['the trees sampled are arbitrary (the step is replaced by a table of symbolic trees), the response is concrete',
                      'floating-point predictors in exact arithmetic',
                      'data frames are stand-ins whose conversion to an array gives symbolic values; the results with real pandas and polars objects are compared on concrete data']
    with patched():
        harness(k, 2, numcut=2, kinds=('array', 'pandas', 'polars'))
        harness(k, 3, numcut=3, p=1, d=3)
        harness(k, 3, usequants=True, xdt=np.int8, kinds=('array', 'pandas', 'polars'), numcut=2)
        harness(k, 3, usequants=True, xdt=np.int16, numcut=3, p=1, d=2)
        harness(k, 4, usequants=True, xdt=np.int8, numcut=2, p=1)
        harness(k, 3, usequants=True, xdt=np.int8, tdt=np.float32, numcut=2, p=1)
        harness(k, 2, xdt=np.int16, tdt=np.float32, numcut=2, p=1, d=2)
        harness(k, 2, xdt=np.float32, tdt=np.int8, numcut=2, p=1)
        harness(k, 2, usequants=True, xdt=np.int8, tdt=np.int16, numcut=2, p=1)
        harness(k, 2, numcut=255, p=1)
        harness(k, 2, numcut=256, p=1)
        harness(k, 2, usequants=False, numcut=3, p=3, d=2, nt=2)
        if k.thorough:
            harness(k, 4, usequants=True, xdt=np.int8, numcut=2, kinds=('array', 'pandas', 'polars'), d=3, m=2)
            harness(k, 4, numcut=4, p=2, d=3, m=2)
    real_frames(k)
