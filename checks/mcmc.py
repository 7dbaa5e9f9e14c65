"""Symbolic MCMC states, their invariant, and the transition harness of mcmcstep.step."""
import contextlib
import warnings

import numpy as np
import z3

import jax
import jax.numpy as jnp

from symx import cells as C, interp as I, run, rnd
from symx.cells import CTX, DT
from symx.check import Harness
from symx.interp import SA
from symx.spec import (N, R, And, Or, Not, Implies, Iff, all_, any_, ints, reals, bools, close, count, forest, ite,
                       points, sel, total, Tree)

rnd.patch()
from bartz import mcmcstep, grove, jaxext  # noqa: E402


class Cfg:
    """bounds of one harness"""

    def __init__(self, d=3, p=2, n=2, ntree=1, minp=True, ratios=False, resid_batch='auto', count_batch='auto',
                 xdtype=np.uint8, msdtype=np.uint8, sym_p=True, maxms=None, xmax=None, pmin=None, alpha=1.5, beta=1.,
                 nodes=None, feats=None, fixed=None, struct=None, X=None):
        self.d, self.p, self.n, self.ntree = d, p, n, ntree
        self.minp, self.ratios = minp, ratios
        self.resid_batch, self.count_batch = resid_batch, count_batch
        self.xdtype, self.msdtype, self.sym_p = xdtype, msdtype, sym_p
        self.maxms, self.xmax = maxms, xmax
        self.pmin = pmin
        self.alpha, self.beta = alpha, beta
        self.nodes = nodes  # nodes that can be decision nodes (None: all)
        self.feats = feats  # predictors with arbitrary values and cutpoints (None: all; the others are 0, without cutpoints)
        self.struct = struct  # set of decision nodes of each tree: the structure is concrete, the rules are not
        self.X = X  # concrete predictors
        self.fixed = fixed or {}  # node -> (var, split): concrete rules

    def __str__(self):
        return (f'd={self.d} p={self.p} n={self.n} trees={self.ntree} min_points={"symbolic" if self.minp is True else self.minp} '
                f'resid_batch={self.resid_batch} count_batch={self.count_batch} X:{np.dtype(self.xdtype).name} '
                f'max_split:{np.dtype(self.msdtype).name}'
                + (f'<={self.maxms}' if self.maxms is not None else '')
                + (f' decision nodes among {sorted(self.nodes)}' if self.nodes is not None else '')
                + (f' tree structures {self.struct}' if self.struct is not None else '')
                + (f' X={np.asarray(self.X).tolist()}' if self.X is not None else '')
                + (f' fixed rules {self.fixed}' if self.fixed else '')
                + (f' predictors with cutpoints among {sorted(self.feats)}' if self.feats is not None else ''))


def init_state(cfg, **kw):
    """ a real initial state, used for the fields and types """
    X = jnp.zeros((cfg.p, cfg.n), cfg.xdtype)
    y = jnp.zeros(cfg.n, jnp.float32)
    p = np.array([.95 / (1 + k) ** 2 for k in range(cfg.d - 1)], np.float32)
    a = dict(X=X, y=y, max_split=jnp.ones(cfg.p, cfg.msdtype), num_trees=cfg.ntree, p_nonterminal=p,
             sigma2_alpha=cfg.alpha, sigma2_beta=cfg.beta,
             min_points_per_leaf=None if cfg.minp is None else (1 if cfg.minp is True else cfg.minp),
             resid_batch_size=cfg.resid_batch, count_batch_size=cfg.count_batch, save_ratios=cfg.ratios)
    a.update(kw)
    return mcmcstep.init(**a)


def sym_state(cfg, consistent=True):
    """
    An arbitrary state with the documented fields. Fields that are functions of
    others by the state invariant (leaf_indices, affluence, resid) are free
    when they can be constrained, derived otherwise.
    """
    b = init_state(cfg)
    d, p, n, nt = cfg.d, cfg.p, cfg.n, cfg.ntree
    h = 2 ** (d - 1)
    fdt = lambda k: np.dtype(b[k].dtype)
    b['X'] = run.sym_int('X', (p, n), cfg.xdtype, 0, cfg.xmax)
    b['max_split'] = run.sym_int('ms', (p,), cfg.msdtype, 0, cfg.maxms)
    b['var_trees'] = run.sym_int('var', (nt, h), fdt('var_trees'), 0, min(p, np.iinfo(fdt('var_trees')).max))
    b['split_trees'] = run.sym_int('spl', (nt, h), fdt('split_trees'), 0, cfg.maxms)
    b['leaf_trees'] = run.sym_real('leaf', (nt, 2 * h), fdt('leaf_trees'))
    if cfg.X is not None:
        b['X'] = np.asarray(cfg.X, cfg.xdtype)
    if cfg.struct is not None:
        for t in range(nt):
            for i in range(h):
                if i in cfg.struct[t]:
                    c = b['split_trees'].c[t, i]
                    CTX.axioms.append(C.zb(C.i_cmp('ge', c, 1, DT(cfg.msdtype))))
                    if isinstance(c, C.IV):
                        b['split_trees'].c[t, i] = C.IV(c.e, max(c.lo, 1), c.hi)
                else:
                    b['split_trees'].c[t, i] = 0
    if cfg.nodes is not None:
        for i in range(h):
            if i not in cfg.nodes:
                for t in range(nt):
                    b['split_trees'].c[t, i] = 0
                    b['var_trees'].c[t, i] = 0
        used = {c for i in cfg.nodes for c in (i, 2 * i, 2 * i + 1)}
        for i in range(2 * h):
            if i not in used:
                for t in range(nt):
                    b['leaf_trees'].c[t, i] = np.float32(0)
    for i, (v, s) in cfg.fixed.items():
        for t in range(nt):
            b['var_trees'].c[t, i] = v
            b['split_trees'].c[t, i] = s
    if cfg.feats is not None:
        for j in range(p):
            if j not in cfg.feats:
                b['max_split'].c[j] = 0
                for i in range(n):
                    b['X'].c[j, i] = 0
    b['y'] = run.sym_real('y', (n,), fdt('y'))
    b['sigma2'] = run.sym_real('s2', (), fdt('sigma2'), pos=True)
    li = np.dtype(b['leaf_indices'].dtype)
    if cfg.minp is not None:
        b['affluence_trees'] = run.sym_bool('aff', (nt, h))
        if cfg.minp is True:
            b['min_points_per_leaf'] = run.sym_int('minp', (), fdt('min_points_per_leaf'), 0, n + 1 if cfg.pmin is None else cfg.pmin)
    # derived fields: membership of the datapoints and residuals
    trees = [Tree(*x) for x in zip(ints(b['var_trees']), ints(b['split_trees']), reals(b['leaf_trees']))]
    pts = points(b)
    lic = I.oempty((nt, n))
    for t in range(nt):
        for i in range(n):
            lic[t, i] = C.i_convert(trees[t].traverse(pts[i]).c, DT('int64'), DT(li))
            if isinstance(lic[t, i], C.IV):
                lic[t, i] = C.IV(lic[t, i].e, 1, 2 * h - 1)
    b['leaf_indices'] = SA(DT(li), lic)
    ys = reals(b['y'])
    rc = I.oempty((n,))
    for i in range(n):
        rc[i] = (ys[i] - total(sel(trees[t].leaf, ints(b['leaf_indices'])[t, i]) for t in range(nt))).c
    b['resid'] = SA(DT(fdt('resid')), rc)
    # prior parameters
    if cfg.sym_p:
        pn = run.sym_real('pn', (d - 1,), fdt('p_nonterminal'))
        for c in pn.c:
            CTX.axioms.append(z3.And(c.e > 0, c.e < 1))
            CTX.unit.add(c.e.decl().name())
        pnc = I.oempty((d,))
        pnc[:d - 1] = pn.c
        pnc[d - 1] = np.float32(0)
        b['p_nonterminal'] = SA(DT(fdt('p_nonterminal')), pnc)
        dep = [max(0, k.bit_length() - 1) for k in range(h)]
        ppg = I.oempty((h,))
        for k in range(h):
            ppg[k] = pnc[dep[k]]
        b['p_propose_grow'] = SA(DT(fdt('p_propose_grow')), ppg)
        b['sigma2_alpha'] = run.sym_real('alpha', (), fdt('sigma2_alpha'), pos=True)
        b['sigma2_beta'] = run.sym_real('beta', (), fdt('sigma2_beta'), pos=True)
    if cfg.ratios:
        b['ratios'] = dict(log_trans_prior=run.sym_real('oldr1', (nt,)), log_likelihood=run.sym_real('oldr2', (nt,)))
    for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'):
        b[k] = run.sym_int(k, (), fdt(k), 0, nt)
    return b


def leaf_counts(tree, pts):
    lands = [tree.lands(x) for x in pts]
    out = {}
    for i in range(1, 2 * tree.h):
        out[i] = count([l[i] for l in lands])
    return out


def inv_parts(b, what):
    """ parts of the state invariant, as (name, formula) """
    trees = forest(b)
    pts = points(b)
    maxs = list(ints(b['max_split']))
    p = len(maxs)
    n = len(pts)
    out = []
    li = ints(b['leaf_indices'])
    for t, tr in enumerate(trees):
        if 'form' in what:
            out.append((f'form: tree {t} is well formed', tr.wellformed()))
        if 'rules' in what:
            for i in range(1, tr.h):
                out.append((f'rules: tree {t} node {i} has an allowed rule', Implies(tr.dec(i), tr.rule_ok(i, maxs, p))))
        if 'li' in what:
            for i in range(n):
                out.append((f'li: leaf membership of point {i} in tree {t}', li[t, i] == tr.traverse(pts[i])))
        if 'min' in what and b['min_points_per_leaf'] is not None:
            mp = ints(b['min_points_per_leaf'])
            cnt = leaf_counts(tr, pts)
            for i in range(2, 2 * tr.h):
                out.append((f'min: leaf {i} of tree {t} has the minimum number of points', Implies(tr.isleaf(i), cnt[i] >= mp)))
        if 'aff' in what and b['affluence_trees'] is not None:
            mp = ints(b['min_points_per_leaf'])
            cnt = leaf_counts(tr, pts)
            aff = bools(b['affluence_trees'])
            for i in range(1, tr.h):
                out.append((f'aff: affluence of leaf {i} of tree {t}', Implies(tr.isleaf(i), Iff(aff[t, i], cnt[i] >= mp * 2))))
    if 'resid' in what:
        y, r = reals(b['y']), reals(b['resid'])
        for i in range(n):
            pred = total(tr.value(pts[i]) for tr in trees)
            out.append((f'resid: residual of point {i}', close(r[i], y[i] - pred, scale_of(b))))
    return out


def scale_of(b):
    """ magnitude of the quantities entering a floating point comparison (concrete mode) """
    l = b['leaf_trees']
    if isinstance(l, SA) or isinstance(b['y'], SA):
        return 1.
    return max(1., float(np.max(np.abs(l))), float(np.max(np.abs(b['y']), initial=0)))


ALL = ('form', 'rules', 'li', 'min', 'aff', 'resid')


def pre_state(b, what=ALL):
    """ precondition: the state invariant """
    fs = [f for _, f in inv_parts(b, what)]
    s2 = reals(b['sigma2'])
    fs.append(s2 > 0)
    if b['min_points_per_leaf'] is not None:
        fs.append(ints(b['min_points_per_leaf']) >= 0)
    return fs


def nodes_changed(t0, t1):
    return [Xor_(t0.dec(i), t1.dec(i)) for i in range(1, t0.h)]


def Xor_(a, b):
    return Not(Iff(a, b))


def reach_moves(b0, b1, extra=()):
    """ witnesses: a grow move accepted, a prune move accepted, nothing changed """
    f0, f1 = forest(b0), forest(b1)
    ch = lambda k: any_([And(f0[k].dec(i), Not(f1[k].dec(i))) for i in range(1, f0[k].h)])
    gr = lambda k: any_([And(f1[k].dec(i), Not(f0[k].dec(i))) for i in range(1, f0[k].h)])
    last = len(f0) - 1
    deep = f0[0].h > 2
    out = [('grow accepted', gr(0)), ('prune accepted', ch(0)), ('unchanged', And(Not(ch(last)), Not(gr(last))))]
    if deep:
        out.append(('grow accepted below the root', And(gr(last), f0[last].isdec(1))))
    return out + list(extra)


def captured_step(bart, key):
    """ the real step; also returns the input state afterwards and the proposals, if they can be observed """
    cap = []
    orig = getattr(mcmcstep, 'sample_moves', None)

    def wrapper(*a, **k):
        m = orig(*a, **k)
        if isinstance(m, dict):
            cap.append(dict(m))
        return m
    if orig is not None:
        mcmcstep.sample_moves = wrapper
    try:
        out = mcmcstep.step(bart, key)
    finally:
        if orig is not None:
            mcmcstep.sample_moves = orig
    return dict(new=out, moves=cap[0] if len(cap) == 1 else None)


def step_harness(k, name, cfg, what, pre=ALL, goals=None, nonlin='uf', reach=None, **kw):
    def inputs():
        return sym_state(cfg), I.root_key()

    def g(args, out, draws):
        b0, b1 = args[0], out
        res = inv_parts(merge(b0, b1), what) if what else []
        if goals:
            res = res + goals(b0, b1, draws)
        return res
    return Harness(k, name, inputs=inputs, fn=mcmcstep.step, goals=g, pre=lambda a: pre_state(a[0], pre),
                   reach=lambda a, o, dr: (reach or reach_moves)(a[0], o), bounds=str(cfg), nonlin=nonlin, **kw)


def merge(b0, b1):
    """ the new state, with the data and settings of the original one (they must not change, see C14) """
    return dict(b1, X=b0['X'], y=b0['y'], max_split=b0['max_split'], min_points_per_leaf=b0['min_points_per_leaf'])


def structs(d):
    """ all tree structures (sets of decision nodes) with d levels """
    h = 2 ** (d - 1)

    def rec(i):
        if i >= h:
            return [set()]
        out = [set()]
        for a in rec(2 * i):
            for b in rec(2 * i + 1):
                out.append({i} | a | b)
        return out
    return rec(1)


def zvars(e):
    """ names of the variables in a cell """
    seen, names = set(), set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
        else:
            stack += x.children()
    return names


def base_terms(es, names):
    """ the non-conditional terms that contain the given variables """
    out, seen, stack = [], set(), list(es)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            stack += x.children()[1:]
        elif x.num_args() and zvars(x) & names:
            out.append(x)
    return out


def real_e(x):
    return C.to_real(x.c, DT('float64'))


def posterior(b0, b1, t, f0, f1, pts):
    """ exact mean and variance of each leaf of tree t, given the others """
    nt = len(f0)
    y = reals(b0['y'])
    s2 = reals(b0['sigma2'])
    part = []
    for i, x in enumerate(pts):
        r = y[i]
        for s in range(nt):
            if s != t:
                r = r - (f1[s] if s < t else f0[s]).value(x)
        part.append(r)
    lands = [f1[t].lands(x) for x in pts]
    out = {}
    for i in range(1, 2 * f0[t].h):
        cnt = count([l[i] for l in lands]).real()
        S = total(ite(l[i], r, R.of(0.)) for l, r in zip(lands, part))
        # variance = 1 / (n / s2 + nt), mean = variance / s2 * S; without divisions inside
        den = cnt + s2 * float(nt)
        out[i] = (S, s2, den, cnt)
    return out


def eqlog(a, b):
    """ equality of two values that may contain logarithms (sufficient condition: same real and log parts) """
    a, b = R.of(a).c, R.of(b).c
    if C.isconcf(a) and C.isconcf(b):
        return close(R(a), R(b))
    if isinstance(a, C.UN) or isinstance(b, C.UN):
        out = []
        for g, x in (a.alts if isinstance(a, C.UN) else [(True, a)]):
            for h, y in (b.alts if isinstance(b, C.UN) else [(True, b)]):
                out.append(Implies(And(g, h), eqlog(R(x), R(y))))
        return all_(out)
    if C.isconcf(a) and not np.isfinite(a) or C.isconcf(b) and not np.isfinite(b):
        return False
    a, b = C.aslv(a, DT('float64')), C.aslv(b, DT('float64'))
    a, b = C.unify_q(a, b)
    return And(close(R(C.RV(a.r)), R(C.RV(b.r))), close(R(C.RV(a.m)), R(C.RV(b.m))))


def cut_trees(goals_of, f1, draws):
    """ goals_of(t): goals about tree t; the values of the leaves of the trees updated before can be anything """
    names = {d.name for d in draws if d.kind == 'normal'}
    res, cut, before = [], [], set()
    for t in range(len(f1)):
        gl = goals_of(t)
        if cut:
            gl = [(n, f, z3.substitute(C.zb(f), *cut)) for n, f in gl]
        res += gl
        if isinstance(f1[t].leaf[1].c, (C.RV, C.LV, C.UN)):
            es = [real_e(x) for x in f1[t].leaf[1:] if not C.isconcf(x.c)]
            zs = set().union(*[zvars(e) for e in es]) & names if es else set()
            cut = cut + [(e, z3.Real(f'cut_{t}_{i}')) for i, e in enumerate(base_terms(es, zs - before))]
            before |= zs
    return res


@contextlib.contextmanager
def byte_limit(limit):
    """ the same code with another memory limit for the batches (the one in the code is too large to be reached within the bounds) """
    orig = jaxext.autobatch
    if limit is not None:
        def autobatch(func, max_io_nbytes, *args, **kw):
            return orig(func, limit, *args, **kw)
        jaxext.autobatch = autobatch
    jax.clear_caches()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        jaxext.autobatch = orig
        jax.clear_caches()
