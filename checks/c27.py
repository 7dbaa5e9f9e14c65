"""C27: tree diagnostics report exactly what is in the trees."""
from .mcmc import *
from bartz import debug, grove
from symx import dse

U8, U16 = np.uint8, np.uint16


def depth_of(i):
    return i.bit_length() - 1


def sym_split(name, lead, d, dt, nodes=None, struct=None):
    """ split trees; nodes: those that can be decision nodes; struct: those that are """
    h = 2 ** (d - 1)
    a = I.oempty(lead + (h,))
    for i in np.ndindex(*a.shape):
        if i[-1] == 0 or (nodes is not None and i[-1] not in nodes) or (struct is not None and i[-1] not in struct):
            a[i] = 0
        else:
            a[i] = C.ivar(run.nm(name, i), DT(dt), int(struct is not None), None)
    return SA(DT(dt), a)


def trees(split, var=None):
    s = ints(split)
    v = ints(var) if var is not None else np.vectorize(lambda _: N(0), otypes=[object])(s)
    return [Tree(v[t], s[t]) for t in range(len(s))]


def masks(k, d, dt, nodes=None):
    """ leaf masks, leaf parents, node depths, actual depth """
    h = 2 ** (d - 1)

    def fn(s):
        return dict(leaf=grove.is_actual_leaf(s), leafb=grove.is_actual_leaf(s, add_bottom_level=True), par=grove.is_leaves_parent(s),
                    depths=grove.tree_depths(s.size), depthsb=grove.tree_depths(2 * s.size), act=debug.tree_actual_depth(s),
                    tdepth=jnp.asarray(grove.tree_depth(s)))

    def goals(args, out, draws):
        t = Tree([N(0)] * h, ints(args[0]))
        g = [('shapes', tuple(np.shape(out[n]) for n in ('leaf', 'leafb', 'par', 'depths', 'depthsb', 'act')) == ((h,), (2 * h,), (h,), (h,), (2 * h,), ()))]
        if not g[0][1]:
            return g
        l, lb, p = bools(out['leaf']), bools(out['leafb']), bools(out['par'])
        dp, dpb = ints(out['depths']), ints(out['depthsb'])
        for i in range(2 * h):
            want = t.isleaf(i) if i else False
            if i < h:
                g.append((f'leaves: node {i}', Iff(l[i], want)))
                g.append((f'depths: node {i}', dp[i] == (depth_of(i) if i else 0)))
                lp = And(t.dec(i), Not(t.isdec(2 * i)), Not(t.isdec(2 * i + 1))) if i else False
                g.append((f'parents: node {i}', Iff(p[i], lp)))
            g.append((f'leaves and bottom: node {i}', Iff(lb[i], want)))
            g.append((f'depths and bottom: node {i}', dpb[i] == (depth_of(i) if i else 0)))
        a = ints(out['act'])
        for j in range(d):
            g.append((f'actual depth: {j}', Iff(a == j, isdepth(t, j))))
        g.append(('array depth', ints(out['tdepth']) == d - 1))
        return g

    name = f'masks d={d} {np.dtype(dt).name}' + (f' decision nodes among {nodes}' if nodes else '')
    Harness(k, name, inputs=lambda: (pick(sym_split('split', (1,), d, dt, nodes), 0),), fn=fn, goals=goals, pre=lambda a: [Tree([N(0)] * h, ints(a[0])).wellformed()],
            raises=True, samples=1, bounds=name, reach=lambda a, o, dr: [('decision nodes', Tree([N(0)] * h, ints(a[0])).isdec(1))] if d > 1 else [])


def Iff(a, b):
    if C.isb(a) and C.isb(b):
        return bool(a) == bool(b)
    return C.zb(a) == C.zb(b)


def isdepth(t, j):
    """ the deepest level with nodes is j """
    lev = lambda m: [t.reached(i) for i in range(2 ** m, min(2 ** (m + 1), 2 * t.h))]
    return And(any_(lev(j)), Not(any_(lev(j + 1))) if j + 1 <= depth_of(2 * t.h - 1) else True)


def pick(x, i):
    return SA(x.dt, x.c[i])


def points_(p, n, dt, live):
    x = run.sym_int('X', (p, n), dt)
    if live is not None:
        x.c[:, live:] = 0
    return x


def distributions(k, ns, nt, d, p, n, xdt=U8, vdt=U8, sdt=U8, nodes=None, struct=None, what=('depth', 'points'), live=None):
    """ distributions in a trace; forests and trees are parts of it """
    h = 2 ** (d - 1)

    def inputs():
        a = I.oempty((ns, nt, h))
        for i in np.ndindex(*a.shape):
            on = i[-1] and (nodes is None or i[-1] in nodes)
            a[i] = C.ivar(run.nm('var', i), DT(vdt), 0, p - 1) if on else 0
        return SA(DT(vdt), a), sym_split('split', (ns, nt), d, sdt, nodes, struct), points_(p, n, xdt, live)

    def fn(v, s, X):
        out = {}
        if 'depth' in what:
            out['dt'] = debug.trace_depth_distr(s)
            out['df'] = debug.forest_depth_distr(s[0])
        if 'points' in what:
            tr = dict(var_trees=v, split_trees=s, leaf_trees=jnp.zeros((ns, nt, 2 * h)))
            out['pt'] = debug.trace_points_per_leaf_distr(tr, X)
            out['pf'] = debug.forest_points_per_leaf_distr(jax.tree_util.tree_map(lambda x: x[0], tr), X)
            out['p1'] = debug.points_per_leaf_distr(v[0, 0], s[0, 0], X)
        return out

    def goals(args, out, draws):
        v, s, X = args
        X = ints(X)
        V, S = ints(v), ints(s)
        f = [[Tree(V[a, t], S[a, t]) for t in range(nt)] for a in range(ns)]
        shapes = dict(dt=(ns, d), df=(d,), pt=(ns, n + 1), pf=(n + 1,), p1=(n + 1,))
        g = [(f'shape of {i}: {np.shape(o)}', tuple(np.shape(o)) == shapes[i]) for i, o in out.items()]
        if not all(x for _, x in g):
            return g
        if 'depth' in what:
            for a in range(ns):
                for j in range(d):
                    c = count([isdepth(t, j) for t in f[a]])
                    g.append((f'depths: sample {a}: {j}', ints(out['dt'])[a, j] == c))
                    if a == 0:
                        g.append((f'depths of a forest: {j}', ints(out['df'])[j] == c))
        if 'points' in what:
            for a in range(ns):
                dist = []
                for t in f[a]:
                    lands = [t.lands(list(X[:, j])) for j in range(n)]
                    cnt = {i: count([l[i] for l in lands]) for i in range(1, 2 * h)}
                    dist.append([count([And(t.isleaf(i), cnt[i] == m) for i in cnt]) for m in range(n + 1)])
                for m in range(n + 1):
                    c = dist[0][m]
                    if a == 0:
                        g.append((f'points of a tree: {m}', asint(out['p1'])[m] == c))
                    for x in dist[1:]:
                        c = c + x[m]
                    g.append((f'points: sample {a}: {m}', asint(out['pt'])[a, m] == c))
                    if a == 0:
                        g.append((f'points of a forest: {m}', asint(out['pf'])[m] == c))
        return g

    name = (f'distributions {"/".join(what)} samples={ns} trees={nt} d={d} p={p} n={n} {np.dtype(xdt).name}/{np.dtype(vdt).name}/{np.dtype(sdt).name}'
            + (f' decision nodes among {nodes}' if nodes else '') + (' full trees' if struct else ''))
    Harness(k, name, inputs=inputs, fn=fn, goals=goals, raises=True, samples=1, bounds=name, variants=1,
            pre=lambda a: [Tree(v, s).wellformed() for v, s in zip(ints(a[0]).reshape(-1, h), ints(a[1]).reshape(-1, h))])


def asint(x):
    """ counts, also if they are stored in a floating-point type """
    return reals(x) if I.dt_of(x).kind == 'f' else ints(x)


NAMES = ['types', 'sizes', 'unused', 'leaf values', 'stray']


def flags(k, nt, d, p, vdt=U8, sdt=U8, mdt=U8, sizes=None, form='tree'):
    """ the flags of arbitrary arrays, well formed or not """
    lv, vv, sv = sizes or (2 ** d, 2 ** (d - 1), 2 ** (d - 1))
    lead = dict(tree=(), forest=(nt,), trace=(2, nt))[form]

    def inputs():
        return (run.sym_fp('leaf', lead + (lv,), finite=False), run.sym_int('var', lead + (vv,), vdt), run.sym_int('split', lead + (sv,), sdt),
                run.sym_int('ms', (p,), mdt))

    def fn(l, v, s, m):
        if form == 'tree':
            return debug.check_tree(l, v, s, m)
        if form == 'forest':
            return debug.check_forest(l, v, s, m)
        return debug.check_trace(dict(leaf_trees=l, var_trees=v, split_trees=s), dict(max_split=m))

    def goals(args, out, draws):
        l, v, s, m = args
        if tuple(np.shape(out)) != lead:
            return [(f'shape {np.shape(out)}', False)]
        L, V, S, e = I.to_cells(l), ints(v), ints(s), ints(out)
        minimal = next(t for t, b in ((np.uint8, 2 ** 8), (np.uint16, 2 ** 16)) if p - 1 < b)
        g = []
        for i in np.ndindex(*lead):
            sp = S[i]
            finite = all_([is_finite(c) for c in L[i]])
            good = [
                np.dtype(vdt) == np.dtype(minimal) and np.dtype(sdt) == np.dtype(mdt),
                lv == 2 * vv == 2 * sv,
                And(V[i][0] == 0, sp[0] == 0),
                finite,
                all_([Implies(Tree([N(0)] * sv, sp).isdec(j), Tree([N(0)] * sv, sp).reached(j)) for j in range(1, sv)]),
            ]
            want = N(0)
            for b, f in enumerate(good):
                want = want + ite(f, N(0), N(2 ** b)) if not C.isb(f) else want + (0 if f else 2 ** b)
            g.append((f'flags: {i}', e[i] == want) if lead else ('flags', e == want))
        return g
    name = f'flags of a {form} d={d} p={p} {np.dtype(vdt).name}/{np.dtype(sdt).name}/{np.dtype(mdt).name} sizes {lv},{vv},{sv}' + (f' trees={nt}' if lead else '')
    Harness(k, name, inputs=inputs, fn=fn, goals=goals, raises=True, samples=1, float_mode='fp', bounds=name + ', arbitrary contents', variants=1)


def is_finite(c):
    if isinstance(c, C.FV):
        return z3.Not(z3.Or(z3.fpIsNaN(c.e), z3.fpIsInf(c.e)))
    return bool(np.isfinite(c))


def describe(k):
    """ the description of the flags, on a symbolic integer """
    v = z3.Int('error')
    n = len(debug.check_functions)
    dom = [v >= 0, v < 2 ** n]
    goals, cover = [], []
    order = ['check_types', 'check_sizes', 'check_unused_node', 'check_leaf_values', 'check_stray_nodes']
    bit = lambda i: (v / 2 ** i) % 2 == 1
    for path, res in dse.Explorer(dom).run(lambda: debug.describe_error(dse.SymInt(v))):
        pc = z3.And(*path) if path else z3.BoolVal(True)
        cover.append(pc)
        if isinstance(res, Exception):
            goals.append((f'no failure: {type(res).__name__}: {res}', Not(pc)))
            continue
        goals.append((f'description {res}', Implies(pc, And(len(res) == len(set(res)), *[bit(i) == z3.BoolVal(w in res) for i, w in enumerate(order)]))))
    goals.append(('the paths cover all the values', z3.Or(cover)))

    def replay(name, model):
        e = int(model.get('error', 0))
        got = debug.describe_error(np.uint8(e))
        want = [w for i, w in enumerate(order) if e >> i & 1]
        if sorted(got) != sorted(want):
            return f'describe_error({e}) is {got} instead of {want}', dict(error=e)
        return None
    k.prove('describe_error', dom, goals, f'all {2 ** n} values, {len(cover)} paths', replay=replay)
    k.functions.add('debug.py:describe_error')


def main(k):
    describe(k)
    for d in (1, 2, 3, 4):
        masks(k, d, U8)
    masks(k, 3, U16)
    chain = lambda d, a: [2 ** j if a else 2 ** (j + 1) - 1 for j in range(d - 1)]
    for d in (8, 9, 10):
        masks(k, d, U8, chain(d, 0))
        masks(k, d, U16, chain(d, 1))
    distributions(k, 2, 2, 1, 1, 2)
    distributions(k, 2, 2, 2, 2, 2)
    distributions(k, 2, 2, 3, 2, 1)
    distributions(k, 1, 2, 3, 2, 2)
    distributions(k, 1, 1, 3, 2, 3)
    distributions(k, 1, 1, 4, 2, 2)
    distributions(k, 1, 1, 3, 2, 1, U16, U16, U16)
    distributions(k, 1, 2, 4, 1, 0, what=('depth',))
    distributions(k, 1, 2, 3, 1, 0)
    distributions(k, 1, 260, 2, 1, 0, what=('depth',))
    distributions(k, 1, 260, 2, 1, 0, what=('points',), struct=[1])
    distributions(k, 2, 1, 9, 1, 1, nodes=chain(9, 0))
    distributions(k, 1, 1, 9, 1, 1, U16, U8, U16, nodes=chain(9, 1))
    distributions(k, 1, 2, 9, 1, 0, struct=range(1, 256))
    distributions(k, 1, 1, 10, 1, 0, struct=range(1, 512))
    for n in (255, 256, 257):
        distributions(k, 1, 1, 2, 1, n, live=2, struct=[1])
    flags(k, 1, 1, 1)
    flags(k, 1, 2, 2)
    flags(k, 1, 3, 1)
    flags(k, 1, 4, 2)
    flags(k, 1, 8, 1)
    flags(k, 1, 9, 1)
    for v, s, m, p in ((U8, U16, U8, 2), (U16, U8, U8, 2), (np.uint32, U16, U16, 3), (U8, U8, U16, 1), (U8, U8, U8, 256), (U8, U8, U8, 257),
                       (U16, U8, U8, 257), (U16, U16, U16, 256)):
        flags(k, 1, 2, p, v, s, m)
    for z in ((8, 2, 4), (8, 4, 2), (4, 4, 4), (16, 4, 4), (8, 2, 2), (4, 2, 4)):
        flags(k, 1, 3, 2, sizes=z)
    flags(k, 3, 3, 2, form='forest')
    flags(k, 2, 2, 2, form='trace')
    flags(k, 2, 2, 2, U16, form='forest')
    if k.thorough:
        masks(k, 5, U8)
        masks(k, 6, U8)
        masks(k, 11, U8, chain(11, 0))
        distributions(k, 2, 3, 3, 2, 2)
        distributions(k, 1, 1, 4, 2, 3)
        distributions(k, 1, 1, 5, 2, 1)
        flags(k, 1, 6, 2)
        flags(k, 1, 10, 2)
