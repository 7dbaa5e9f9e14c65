"""C13: counters."""
from .mcmc import *


def goals(b0, b1, draws):
    f0, f1 = forest(b0), forest(b1)
    h = f0[0].h
    grew = [any_([And(b.dec(i), Not(a.dec(i))) for i in range(1, h)]) for a, b in zip(f0, f1)]
    pruned = [any_([And(a.dec(i), Not(b.dec(i))) for i in range(1, h)]) for a, b in zip(f0, f1)]
    gp, ga, pp, pa = (ints(b1[k]) for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'))
    nt = len(f0)
    grow_ok = [growable(b0, f0[t], t) for t in range(nt)]
    prune_ok = [f0[t].isdec(1) for t in range(nt)]
    return [
        ('acc: number of trees that grew', ga == count(grew)),
        ('acc: number of trees pruned', pa == count(pruned)),
        ('prop: grow accepted <= proposed', ga <= gp),
        ('prop: prune accepted <= proposed', pa <= pp),
        ('prop: proposals <= trees', gp + pp <= nt),
        ('prop: one proposal for each tree that allows a move', gp + pp == count([Or(a, b) for a, b in zip(grow_ok, prune_ok)])),
        ('prop: grow proposals at least where only growth is possible', gp >= count([And(a, Not(b)) for a, b in zip(grow_ok, prune_ok)])),
        ('prop: prune proposals at least where only pruning is possible', pp >= count([And(b, Not(a)) for a, b in zip(grow_ok, prune_ok)])),
    ]


def growable(b, tree, t):
    """ there is a leaf above the deepest level that is populous enough """
    aff = bools(b['affluence_trees']) if b['affluence_trees'] is not None else None
    return any_([And(tree.isleaf(i), True if aff is None else aff[t, i]) for i in range(1, tree.h)])


def exact(args, out, draws):
    """ with the observed proposals """
    b0, b1, m = args[0], out['new'], out['moves']
    gl = goals(b0, b1, draws)
    if m is None or not {'grow', 'allowed'} <= set(m):
        return gl
    if any(np.shape(m[i]) != (len(b0['split_trees'].c if hasattr(b0['split_trees'], 'c') else b0['split_trees']),) for i in ('grow', 'allowed')):
        return gl
    grow, allowed = bools(m['grow']), bools(m['allowed'])
    gl.append(('proposals: grow', ints(b1['grow_prop_count']) == count(list(grow))))
    gl.append(('proposals: prune', ints(b1['prune_prop_count']) == count([And(a, Not(g)) for a, g in zip(allowed, grow)])))
    return gl


def main(k):
    cfgs = [Cfg(3, 2, 2, 2), Cfg(3, 1, 1, 3, minp=None, sym_p=False), Cfg(4, 2, 1, 1)]
    if k.thorough:
        cfgs += [Cfg(3, 2, 2, 3), Cfg(4, 2, 2, 2)]
    for c in cfgs:
        Harness(k, f'step {c.d}-{c.ntree}-{c.minp}', inputs=lambda: (sym_state(c), I.root_key()), fn=captured_step, goals=exact,
                pre=lambda a: pre_state(a[0]), reach=lambda a, o, dr: reach_moves(a[0], o['new']), bounds=str(c), nonlin='uf')
    # many trees: the counters do not wrap around
    c = Cfg(2, 1, 0, 260, minp=None, sym_p=False, struct=[set()] * 260)
    Harness(k, 'many trees', inputs=lambda: (sym_state(c), I.root_key()), fn=captured_step,
            goals=lambda *a: [g for g in exact(*a) if 'acc' not in g[0]],
            pre=lambda a: pre_state(a[0]), bounds=str(c).replace(str([set()] * 260), 'all roots'), nonlin='uf', samples=1)
