"""C14: a step alters neither its input nor data and settings."""
from jax import tree_util as tu

from .mcmc import *

KEEP = ('y', 'X', 'max_split', 'p_nonterminal', 'p_propose_grow', 'sigma2_alpha', 'sigma2_beta', 'min_points_per_leaf')


def fn(bart, key):
    b = dict(bart)
    if 'ratios' in b:
        b['ratios'] = dict(b['ratios'])
    out = mcmcstep.step(b, key)
    return dict(input=b, new=out)


def same(a, b):
    """ two arrays have the same values """
    a, b = I.to_cells(a), I.to_cells(b)
    if a.shape != b.shape:
        return False
    out = []
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if x is y:
            continue
        if isinstance(x, C.IV) or isinstance(y, C.IV):
            out.append(C.i_cmp('eq', x, y, DT('int64')) if not (isinstance(x, C.IV) and isinstance(y, C.IV)) else C.zb(x.e == y.e) if x.e.sort() == y.e.sort() else False)
        elif isinstance(x, (C.RV, C.LV, C.UN)) or isinstance(y, (C.RV, C.LV, C.UN)):
            out.append(C.f_cmp('eq', x, y, DT('float32')))
        elif C.isb(x) and C.isb(y):
            out.append(bool(x) == bool(y))
        elif isinstance(x, z3.BoolRef) or isinstance(y, z3.BoolRef):
            out.append(Iff(x, y))
        else:
            out.append(bool(x == y or (x != x and y != y)))
    return all_(out)


def desc(x):
    if isinstance(x, SA):
        return x.shape, np.dtype(x.dt.np)
    if hasattr(x, 'dtype'):
        return np.shape(x), np.dtype(x.dtype)
    return 'static', repr(x)


def flat(b):
    return {tu.keystr(p): x for p, x in tu.tree_flatten_with_path(b, is_leaf=run.leaf)[0]}


def goals(args, out, draws):
    b0 = args[0]
    a, i, o = flat(b0), flat(out['input']), flat(out['new'])
    res = [('fields: same fields in the input after the step', set(a) == set(i)),
           ('fields: same fields in the output', set(a) == set(o)),
           ('fields: options', repr(b0['opt']) == repr(out['new'].get('opt')))]
    for n in a:
        if n in i:
            res.append((f'input: {n} keeps its value', same(a[n], i[n])))
        if n in o:
            res.append((f'fields: shape and type of {n}', desc(a[n]) == desc(o[n])))
    for n in KEEP:
        if b0[n] is None:
            res.append((f'data: {n}', out['new'][n] is None))
        else:
            res.append((f'data: {n} unchanged', same(b0[n], out['new'][n])))
    return res


def main(k):
    cfgs = [Cfg(3, 2, 2, 2, ratios=True), Cfg(3, 2, 2, 2, minp=None), Cfg(4, 2, 1, 1, ratios=True), Cfg(2, 1, 1, 1), Cfg(1, 1, 1, 1),
            Cfg(3, 2, 2, 1, xdtype=np.uint16, msdtype=np.uint16, resid_batch=2, count_batch=1), Cfg(3, 2, 3, 2, resid_batch=None, count_batch=2),
            Cfg(3, 2, 0, 2), Cfg(3, 2, 2, 2, xdtype=np.uint32, msdtype=np.uint32), Cfg(3, 2, 2, 2, xdtype=np.uint16, msdtype=np.uint8)]
    for j, c in enumerate(cfgs):
        Harness(k, f'step {j}', inputs=lambda: (sym_state(c), I.root_key()), fn=fn, goals=goals,
                pre=lambda a: pre_state(a[0]), bounds=str(c), nonlin='uf', raises=True)
