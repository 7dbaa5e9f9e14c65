"""C15: a fresh state is consistent."""
from .mcmc import *


def mk(c):
    def fn(a):
        return mcmcstep.init(X=a['X'], y=a['y'], max_split=a['ms'], num_trees=c.ntree, p_nonterminal=a['pn'], sigma2_alpha=a['alpha'],
                             sigma2_beta=a['beta'], min_points_per_leaf=a['minp'], resid_batch_size=c.resid_batch,
                             count_batch_size=c.count_batch, save_ratios=c.ratios)
    return fn


def inputs(c):
    a = dict(X=run.sym_int('X', (c.p, c.n), c.xdtype), y=run.sym_real('y', (c.n,)), ms=run.sym_int('ms', (c.p,), c.msdtype),
             pn=run.sym_real('pn', (c.d - 1,)), alpha=run.sym_real('alpha', ()), beta=run.sym_real('beta', ()),
             minp=None if c.minp is None else run.sym_int('minp', (), np.int32, 0, 1000))
    for x in a['pn'].c:
        CTX.axioms.append(z3.And(x.e > 0, x.e < 1))
    CTX.axioms += [a['alpha'].c[()].e >= 0, a['beta'].c[()].e >= 0]
    return (a,)


def width(x, top):
    dt = np.dtype(x.dt.np if isinstance(x, SA) else x.dtype)
    return dt.kind in 'iu' and np.iinfo(dt).max >= top


def goals(c):
    def g(args, b, draws):
        a = args[0]
        h = 2 ** (c.d - 1)
        out = []
        f = forest(b)
        shapes = dict(leaf_trees=(c.ntree, 2 * h), var_trees=(c.ntree, h), split_trees=(c.ntree, h), resid=(c.n,), sigma2=(),
                      leaf_indices=(c.ntree, c.n), p_nonterminal=(c.d,), p_propose_grow=(h,), y=(c.n,), X=(c.p, c.n), max_split=(c.p,))
        for n, s in shapes.items():
            out.append((f'shape: {n}', tuple(np.shape(b[n]) if not isinstance(b[n], SA) else b[n].shape) == s))
        if not all(x for _, x in out):
            return out
        li = ints(b['leaf_indices'])
        for t, tr in enumerate(f):
            out.append((f'root: tree {t} is a single leaf of value zero', all_(
                [tr.split[i] == 0 for i in range(h)] + [close(tr.leaf[1], 0.)])))
            for i in range(c.n):
                out.append((f'root: point {i} is in the root of tree {t}', li[t, i] == 1))
        y, r, ay = reals(b['y']), reals(b['resid']), reals(a['y'])
        for i in range(c.n):
            out.append((f'resid: point {i}', And(close(r[i], ay[i]), close(y[i], ay[i]))))
        s2 = reals(b['sigma2'])
        out.append(('sigma2: positive', s2 > 0))
        out.append(('sigma2: finite', s2.finite()))
        al, be = reals(a['alpha']), reals(a['beta'])
        out.append(('sigma2: prior parameters', And(close(reals(b['sigma2_alpha']), al), close(reals(b['sigma2_beta']), be))))
        pn, apn, ppg = reals(b['p_nonterminal']), list(reals(a['pn'])) + [R.of(0.)], reals(b['p_propose_grow'])
        for i in range(c.d):
            out.append((f'prior: depth {i}', close(pn[i], apn[i])))
        for i in range(1, h):
            out.append((f'prior: leaf picking weight of node {i}', close(ppg[i], apn[i.bit_length() - 1])))
        X, aX, ms, ams = ints(b['X']), ints(a['X']), ints(b['max_split']), ints(a['ms'])
        out.append(('data: predictors', all_([X[i] == aX[i] for i in np.ndindex(*X.shape)])))
        out.append(('data: cutpoints', all_([ms[i] == ams[i] for i in range(c.p)])))
        for n in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'):
            out.append((f'counters: {n} is zero', ints(b[n]) == 0))
        if c.minp is None:
            out.append(('min: not set', b['min_points_per_leaf'] is None and b['affluence_trees'] is None))
        else:
            mp = ints(a['minp'])
            out.append(('min: stored', ints(b['min_points_per_leaf']) == mp))
            aff = bools(b['affluence_trees'])
            if h > 1:
                for t in range(c.ntree):
                    out.append((f'min: affluence of the root of tree {t}', Iff(aff[t, 1], mp * 2 <= c.n)))
        out += types(c, b)
        if c.n:
            out += [('inv ' + n, x) for n, x in inv_parts(b, ALL)]
        return out
    return g


def types(c, b):
    d = lambda k: np.dtype(b[k].dt.np if isinstance(b[k], SA) else b[k].dtype)
    return [('types: predictor indices', width(b['var_trees'], c.p - 1)), ('types: leaf indices', width(b['leaf_indices'], 2 ** c.d - 1)),
            ('types: cutpoints', width(b['split_trees'], np.iinfo(c.msdtype).max)),
            ('types: counters', all(width(b[n], c.ntree) for n in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'))),
            ('types: floats', all(d(n) == np.float32 for n in ('leaf_trees', 'resid', 'sigma2', 'y', 'p_nonterminal', 'p_propose_grow')))]


def main(k):
    cfgs = [Cfg(3, 2, 3, 2), Cfg(4, 3, 2, 2, minp=None), Cfg(2, 1, 1, 1), Cfg(1, 1, 1, 1), Cfg(1, 2, 1, 1, minp=None), Cfg(3, 2, 0, 2), Cfg(6, 2, 2, 1, ratios=True),
            Cfg(3, 2, 2, 1, xdtype=np.uint16, msdtype=np.uint16, resid_batch=7, count_batch=3), Cfg(3, 256, 1, 1), Cfg(3, 257, 1, 1),
            Cfg(8, 1, 1, 1), Cfg(9, 1, 1, 1), Cfg(2, 65536, 0, 1), Cfg(2, 65537, 0, 1), Cfg(2, 1, 1, 300),
            Cfg(3, 1, 10, 2), Cfg(3, 1, 11, 2)]
    for j, c in enumerate(cfgs):
        Harness(k, f'init {j}', inputs=lambda: inputs(c), fn=mk(c), goals=goals(c), bounds=str(c), raises=True, samples=1)
