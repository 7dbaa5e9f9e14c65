"""C18: predictions from a trace use the trees of each sample, however the computation is batched."""
from .mcmc import *
from bartz import mcmcloop

U8, U16 = np.uint8, np.uint16


def main_harness(k, nk, nt, d, p, n, limit, xdt=U8, vdt=U8, sdt=U8, extra=False, nodes=None, live=None):
    h = 2 ** (d - 1)
    name = f'samples={nk} trees={nt} d={d} p={p} n={n} limit={limit} {np.dtype(xdt).name}/{np.dtype(vdt).name}/{np.dtype(sdt).name}'

    def ints_(nm_, shape, dt, hi=None):
        a = I.oempty(shape)
        for i in np.ndindex(*shape):
            on = (nodes is None or i[-1] in nodes) and (live is None or i[1] in live)
            a[i] = C.ivar(run.nm(nm_, i), DT(dt), 0, hi) if on else 0
        return SA(DT(dt), a)

    def inputs():
        tr = dict(leaf_trees=run.sym_real('leaf', (nk, nt, 2 * h)), var_trees=ints_('var', (nk, nt, h), vdt, p - 1),
                  split_trees=ints_('split', (nk, nt, h), sdt))
        if extra:
            tr['sigma2'] = run.sym_real('sigma2', (nk,))
            tr['grow_prop_count'] = run.sym_int('gpc', (nk,), np.uint8)
            tr['ratios'] = dict(log_trans_prior=run.sym_real('ltp', (nk, nt)))
        return tr, run.sym_int('X', (p, n), xdt)

    def goals(args, out, draws):
        tr, X = args
        X = ints(X)
        L, V, S, o = reals(tr['leaf_trees']), ints(tr['var_trees']), ints(tr['split_trees']), reals(out)
        res = [('shape', tuple(np.shape(out)) == (nk, n))]
        if not nk or not n or np.shape(out) != (nk, n):
            return res
        for s in range(nk):
            f = [Tree(V[s, t], S[s, t], L[s, t]) for t in range(nt)]
            for j in range(n):
                x = list(X[:, j])
                res.append((f'prediction: sample {s} point {j}', close(o[s, j], total(f[t].value(x) for t in range(nt)))))
        return res

    with byte_limit(limit):
        fn = getattr(mcmcloop.evaluate_trace, '__wrapped__', mcmcloop.evaluate_trace)
        Harness(k, name, inputs=inputs, fn=lambda tr, X: fn(tr, X), goals=goals, raises=True, samples=1, bounds=name)


def main(k):
    k.assumptions.append('leaf values and their sums in exact arithmetic')
    k.outside.append('the memory limit of 2^29 bytes of the code is replaced by smaller ones, to have more than one batch')
    for nk in range(4):
        main_harness(k, nk, 2, 3, 2, 2, None)
    # bytes per tree with d=3, n=2: 16 + 4 + 4 + 4 * 2 ...
    for limit in (1, 40, 64, 80, 120, 200):
        main_harness(k, 2, 2, 3, 2, 1, limit)
        main_harness(k, 2, 3, 2, 1, 2, limit)
    for nt in (1, 4, 5, 6):
        for limit in (1, 40, 60, 100):
            main_harness(k, 2, nt, 2, 2, 1, limit)
    main_harness(k, 2, 2, 2, 2, 0, None)
    main_harness(k, 2, 2, 1, 1, 2, None)
    main_harness(k, 2, 2, 1, 1, 2, 1)
    main_harness(k, 3, 2, 3, 2, 1, None, extra=True)
    main_harness(k, 3, 2, 3, 2, 1, 50, U16, U16, U16, extra=True)
    main_harness(k, 1, 257, 2, 1, 1, None, live=[0, 1, 255, 256])
    main_harness(k, 1, 256, 2, 1, 1, 2000, live=[0, 1, 127, 128, 255])
    main_harness(k, 1, 1, 9, 1, 1, None, nodes=[1, 3, 7, 15, 31, 63, 127, 255])
    if k.thorough:
        for nt in range(1, 13):
            for limit in (1, 20, 40, 60, 80, 100, 150, 200, 300):
                main_harness(k, 2, nt, 3, 2, 2, limit)
        main_harness(k, 5, 4, 4, 3, 3, None)
        main_harness(k, 5, 4, 4, 3, 3, 200)
