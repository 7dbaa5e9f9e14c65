"""C07: likelihood factor."""
from .mcmc import *


def spec(b0, f0, f1, t, big, i, pts):
    """ log ratio of the marginal densities: node i split in two (as in the tree big) over kept whole """
    nt = len(f0)
    y, s2 = reals(b0['y']), reals(b0['sigma2'])
    v = R.of(1.) / float(nt)
    cl, cr, sl, sr = N(0), N(0), R.of(0.), R.of(0.)
    for j, x in enumerate(pts):
        r = y[j]
        for s in range(nt):
            if s != t:
                r = r - (f1[s] if s < t else f0[s]).value(x)
        l = big.lands(x)
        cl, cr = cl + N(C.b2i(l[2 * i], DT('int64'))), cr + N(C.b2i(l[2 * i + 1], DT('int64')))
        sl, sr = sl + ite(l[2 * i], r, R.of(0.)), sr + ite(l[2 * i + 1], r, R.of(0.))
    var = lambda c: s2 + c.real() * v
    vl, vr, vt = var(cl), var(cr), var(cl + cr)
    st = sl + sr
    return (s2 * vt / (vl * vr)).log() / 2 + v / (s2 * 2.) * (sl * sl / vl + sr * sr / vr - st * st / vt)


def goals(b0, b1, draws):
    f0, f1, pts = forest(b0), forest(b1), points(b0)
    if b1.get('ratios') is None:
        return [('saved: ratios are saved', False)]
    lk = reals(b1['ratios']['log_likelihood'])
    h = f0[0].h

    def of(t):
        res = []
        for i in range(1, h):
            for nm, big, small in (('grow', f1[t], f0[t]), ('prune', f0[t], f1[t])):
                c = And(big.dec(i), small.isleaf(i))
                if c is False:
                    continue
                res.append((f'{nm}: tree {t} node {i}', Implies(c, eqlog(lk[t], spec(b0, f0, f1, t, big, i, pts)))))
        return res
    return cut_trees(of, f1, draws)


def harness(k, c, **kw):
    a = dict(nonlin='exact', group=False, cutlog=True, split=True, timeout=150, reach=lambda a, b: [], samples=1)
    step_harness(k, f'step {c.d}-{c.ntree} {[sorted(s) for s in c.struct]}', c, (), goals=goals, **dict(a, **kw))


def main(k):
    for st in structs(3):
        harness(k, Cfg(3, 2, 2, 1, minp=None, sym_p=False, struct=[st], ratios=True))
    for st in structs(2):
        harness(k, Cfg(2, 1, 3, 1, sym_p=False, struct=[st], ratios=True))
    for a in structs(2):
        for b in structs(2):
            harness(k, Cfg(2, 1, 2, 2, minp=None, sym_p=False, struct=[a, b], ratios=True))
