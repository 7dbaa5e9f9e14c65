"""C17: evaluating trees follows the decision rules, for arbitrary trees (also ill-formed ones)."""
from .mcmc import *

U8, U16, U32, I32 = np.uint8, np.uint16, np.uint32, np.int32


def arr(name, shape, dtype, fixed=None, lo=None, hi=None):
    """ symbolic integers, except the entries where fixed(index) is not None """
    a = I.oempty(shape)
    for i in np.ndindex(*shape):
        f = None if fixed is None else fixed(i)
        a[i] = C.ivar(run.nm(name, i), DT(dtype), lo, hi) if f is None else f
    return SA(DT(dtype), a)


def forest_inputs(d, p, n, nt, xdt, vdt, sdt, nodes=None, trees=None, feats=None):
    """ nodes: those that can be decision nodes; trees: those that are not trivial; feats: predictors that are not 0 """
    h = 2 ** (d - 1)
    off = lambda i: (nodes is not None and i[1] not in nodes) or (trees is not None and i[0] not in trees)
    X = arr('X', (p, n), xdt, lambda i: None if feats is None or i[0] in feats else 0)
    var = arr('var', (nt, h), vdt, lambda i: 0 if off(i) else None, 0, p - 1)
    split = arr('split', (nt, h), sdt, lambda i: 0 if off(i) else None)
    if np.dtype(sdt).kind == 'i':
        CTX.axioms.extend(C.zb(s >= 0) for s in np.ravel(ints(split)))
    leaf = run.sym_real('leaf', (nt, 2 * h))
    return X, leaf, var, split


def expected(args):
    X, leaf, var, split = ints(args[0]), reals(args[1]), ints(args[2]), ints(args[3])
    pts = [list(X[:, j]) for j in range(X.shape[1])]
    return [Tree(var[t], split[t], leaf[t]) for t in range(len(var))], pts


def evaluate(k, d, p, n, nt, xdt=U8, vdt=U8, sdt=U8, sums=True, what='evaluate', **kw):
    name = f'{what} d={d} p={p} n={n} trees={nt} {np.dtype(xdt).name}/{np.dtype(vdt).name}/{np.dtype(sdt).name} sums={sums}'

    def fn(X, leaf, var, split):
        if what == 'evaluate':
            return grove.evaluate_forest(X, leaf, var, split, jnp.float32, sum_trees=sums)
        if what == 'traverse':
            return grove.traverse_forest(X, var, split)
        return grove.traverse_tree(X[:, 0], var[0], split[0])

    def goals(args, out, draws):
        f, pts = expected(args)
        if d > 6 and nt == n == 1:
            l = f[0].lands(pts[0])
            o = ints(out) if what != 'evaluate' else reals(out)
            o = o.ravel()[0] if isinstance(o, np.ndarray) else o
            return [('some leaf is reached', any_(l.values()))] + [
                (f'{what}: point in leaf {i}', Implies(l[i], o == i if what != 'evaluate' else close(o, f[0].leaf[i])))
                for i in range(1, 2 ** d) if l[i] is not False]
        if what == 'tree':
            return [('node reached', N.of(ints(out)) == f[0].traverse(pts[0]))]
        if what == 'traverse':
            o = ints(out)
            return [('shape', o.shape == (nt, n))] + [(f'node reached: tree {t} point {j}', o[t, j] == f[t].traverse(pts[j]))
                                                      for t in range(nt) for j in range(n)]
        o = reals(out)
        if sums:
            return [('shape', np.shape(o) == (n,))] + [(f'sum: point {j}', close(o[j], total(f[t].value(pts[j]) for t in range(nt)))) for j in range(n)]
        return [('shape', np.shape(o) == (nt, n))] + [(f'value: tree {t} point {j}', close(o[t, j], f[t].value(pts[j])))
                                                      for t in range(nt) for j in range(n)]

    def reach(args, out, draws):
        f, pts = expected(args)
        last = max(kw.get('nodes') or [2 ** (d - 1) - 1]) if d > 1 else 0
        if not n or not nt or not last:
            return []
        t = (kw.get('trees') or [nt - 1])[-1]
        return [('a point in the last leaf', f[t].lands(pts[-1])[2 * last + 1])]
    Harness(k, name, inputs=lambda: forest_inputs(d, p, n, nt, xdt, vdt, sdt, **kw), fn=fn, goals=goals, reach=reach, raises=True, samples=1, group=d <= 6,
            bounds=name + (f' decision nodes among {sorted(kw["nodes"])}' if kw.get('nodes') else ''))


def chain(d):
    h = 2 ** (d - 1)
    return [h - 1 >> j for j in range(d - 1)][::-1]


def chains(d):
    """ the leftmost, the rightmost and two zigzag paths """
    out = set()
    for bits in ('0' * d, '1' * d, ('01' * d)[:d], ('110' * d)[:d]):
        out |= {int('1' + bits[:j], 2) for j in range(d - 1)}
    return sorted(out)


def main(k):
    k.assumptions.append('leaf values and their sums in exact arithmetic')
    for d in (1, 2, 3, 4):
        evaluate(k, d, 2, 2, 2)
        evaluate(k, d, 2, 2, 2, sums=False)
    evaluate(k, 5, 3, 1, 1)
    evaluate(k, 3, 1, 0, 2)
    evaluate(k, 3, 1, 3, 1)
    # mixed types
    for x, v, s in [(U16, U8, U8), (U8, U8, U16), (U16, U16, U16), (U32, U8, U8), (U8, U32, U8), (I32, I32, I32), (U16, U8, U8), (U32, U32, U32)]:
        evaluate(k, 3, 2, 1, 2, x, v, s)
    # widths of the indices of nodes, trees, predictors
    for d in (8, 9):
        evaluate(k, d, 2, 1, 1, nodes=chains(d))
        evaluate(k, d, 1, 1, 2, sums=False, nodes=chain(d))
    if hasattr(grove, 'traverse_forest'):
        evaluate(k, 4, 2, 2, 2, what='traverse')
        evaluate(k, 9, 2, 1, 1, what='traverse', nodes=chain(9))
    if hasattr(grove, 'traverse_tree'):
        evaluate(k, 4, 2, 1, 1, what='tree')
        evaluate(k, 8, 2, 1, 1, what='tree', nodes=chains(8))
    for nt in (256, 257):
        for sums in (True, False):
            evaluate(k, 2, 1, 1, nt, sums=sums, trees=[0, 1, 255, nt - 1])
    for p in (256, 257, 300):
        evaluate(k, 3, p, 1, 1, vdt=U8 if p <= 256 else U16, feats=[0, 1, 127, 255, p - 1])
    if k.thorough:
        evaluate(k, 5, 3, 2, 2)
        evaluate(k, 6, 3, 2, 1)
        evaluate(k, 8, 2, 1, 1)
        for d in (10, 11, 12):
            evaluate(k, d, 2, 1, 1, nodes=chains(d))
        evaluate(k, 16, 1, 1, 1, nodes=chain(16))
        evaluate(k, 17, 1, 1, 1, nodes=chain(17))
        evaluate(k, 2, 65537, 1, 1, vdt=U32, feats=[0, 1, 255, 256, 65535, 65536])
        evaluate(k, 3, 2, 5, 5)
