"""C06: transition and prior factor."""
from .mcmc import *


def growable_set(b, tree, pts):
    """ leaves that can be picked for growth """
    cnt = leaf_counts(tree, pts)
    mp = None if b['min_points_per_leaf'] is None else ints(b['min_points_per_leaf'])
    return {i: And(tree.isleaf(i), True if mp is None else cnt[i] >= mp * 2) for i in range(1, tree.h)}


def prunable_set(tree):
    return {i: And(tree.dec(i), Not(tree.isdec(2 * i)), Not(tree.isdec(2 * i + 1))) for i in range(1, tree.h)}


def factor(b, T, T1, i, pts):
    """ [P(T1 -> T) P(T1)] / [P(T -> T1) P(T)], T1 = T with leaf i grown; P(rule | node) cancels """
    pn = reals(b['p_nonterminal'])
    dep = lambda i: i.bit_length() - 1
    ga, pr, ga1, pr1 = growable_set(b, T, pts), prunable_set(T), growable_set(b, T1, pts), prunable_set(T1)
    half = lambda c: ite(c, R.of(.5), R.of(1.))
    p_grow = half(any_(pr.values()))
    p_prune = half(any_(ga1.values()))
    w = pn[dep(i)]
    tot = total(ite(c, pn[dep(j)], R.of(0.)) for j, c in ga.items())
    nprun = count(list(pr1.values())).real()
    q = R.of(1.) - pn[dep(i) + 1]
    # divisions only at the end (concrete operands would be rounded)
    return (p_prune * tot * w * q * q) / (nprun * p_grow * w * (R.of(1.) - w))


def goals(b0, b1, draws):
    f0, f1, pts = forest(b0), forest(b1), points(b0)
    if b1.get('ratios') is None:
        return [('saved: ratios are saved', False)]
    tp = reals(b1['ratios']['log_trans_prior'])
    res = []
    for t in range(len(f0)):
        for i in range(1, f0[0].h):
            for nm, big, small in (('grow', f1[t], f0[t]), ('prune', f0[t], f1[t])):
                c = And(big.dec(i), small.isleaf(i))
                if c is False:
                    continue
                res.append((f'{nm}: tree {t} node {i}', Implies(c, eqlog(tp[t], factor(b0, small, big, i, pts).log()))))
    return res


def moves_reach(st):
    def reach(b0, b1):
        out = []
        for t, s in enumerate(st):
            f0, f1 = forest(b0), forest(b1)
            h = f0[0].h
            if any(i not in s and (i == 1 or i >> 1 in s) for i in range(1, h)):
                out.append((f'tree {t} grows', any_([And(f1[t].dec(i), Not(f0[t].dec(i))) for i in range(1, h)])))
            if s:
                out.append((f'tree {t} is pruned', any_([And(f0[t].dec(i), Not(f1[t].dec(i))) for i in range(1, h)])))
        return out
    return reach


def harness(k, c, **kw):
    a = dict(nonlin='exact', group=False, cutlog=True, split=True, timeout=150, reach=moves_reach(c.struct), samples=1)
    step_harness(k, f'step {c.d}-{c.ntree} {[sorted(s) for s in c.struct]} {c.minp}', c, (), goals=goals, **dict(a, **kw))


def main(k):
    for st in structs(3):
        harness(k, Cfg(3, 2, 0, 1, minp=None, struct=[st], ratios=True))
        # enough points for each structure to be possible and to grow
        harness(k, Cfg(3, 1, 3 + (len(st) > 1), 1, struct=[st], ratios=True, minp=1))
    harness(k, Cfg(2, 1, 2, 2, struct=[set(), {1}], ratios=True))
    harness(k, Cfg(2, 1, 4, 1, struct=[{1}], ratios=True))
    for st in structs(4) if k.thorough else [{1, 3}, {1, 2, 5}, {1, 3, 7}, {1, 2, 3, 5}, {1, 2, 3, 6, 7}, {1, 2, 3, 4, 5, 6}]:
        harness(k, Cfg(4, 2, 0, 1, minp=None, struct=[st], ratios=True))
    if k.thorough:
        for st in structs(3):
            harness(k, Cfg(3, 2, 5, 1, struct=[st], ratios=True, minp=1))
            harness(k, Cfg(3, 1, 6, 1, struct=[st], ratios=True, minp=2))
        for st in structs(4):
            harness(k, Cfg(4, 1, 3, 1, struct=[st], ratios=True, minp=0))
        for st in [{1, 3, 7, 15}, {1, 2, 3, 4, 5, 6, 7, 8, 15}, {1, 2, 5, 11}]:
            harness(k, Cfg(5, 1, 0, 1, minp=None, struct=[st], ratios=True))
