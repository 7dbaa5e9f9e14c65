"""C30: no dependence on the order of the points."""
from .mcmc import *

SAME = ('var_trees', 'split_trees', 'affluence_trees', 'leaf_trees', 'sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')


def permute(b, perm):
    perm = jnp.array(perm)
    return dict(b, X=b['X'][:, perm], y=b['y'][perm], resid=b['resid'][perm], leaf_indices=b['leaf_indices'][:, perm])


def harness(k, c, perm):
    def fn(bart, key):
        a = mcmcstep.step(bart, key)
        b = mcmcstep.step(permute(bart, perm), key)
        f = lambda s: {n: s[n] for n in SAME + ('resid', 'leaf_indices', 'X', 'y') if s[n] is not None}
        return f(a), f(b)

    def goals(args, out, draws):
        a, b = out
        sc = scale_of(args[0])
        res = []
        for n in SAME:
            if n not in a:
                continue
            if n in ('leaf_trees', 'sigma2'):
                f = all_([close(x, y, sc) for x, y in zip(np.ravel(reals(a[n])), np.ravel(reals(b[n])))])
            else:
                f = all_([x == y for x, y in zip(np.ravel(ints(a[n])), np.ravel(ints(b[n])))])
            res.append((f'{n}: unchanged', f))
        ra, rb, la, lb = reals(a['resid']), reals(b['resid']), ints(a['leaf_indices']), ints(b['leaf_indices'])
        for j, i in enumerate(perm):
            res.append((f'resid: point {i} moved to {j}', close(ra[i], rb[j], sc)))
            for t in range(c.ntree):
                res.append((f'leaf_indices: point {i} moved to {j}, tree {t}', la[t, i] == lb[t, j]))
        return res
    Harness(k, f'step {c.d}-{c.ntree} {perm}', inputs=lambda: (sym_state(c), I.root_key()), fn=fn, goals=goals, pre=lambda a: pre_state(a[0]),
            bounds=f'{c}, permutation {perm}', nonlin='uf', samples=1)


def main(k):
    harness(k, Cfg(3, 2, 3, 2, sym_p=False, minp=None), (1, 0, 2))
    harness(k, Cfg(3, 1, 3, 1, sym_p=False), (0, 2, 1))
    harness(k, Cfg(3, 1, 4, 1, sym_p=False, resid_batch=2, count_batch=3), (1, 2, 3, 0))
    if k.thorough:
        harness(k, Cfg(3, 2, 4, 2), (1, 2, 3, 0))
        harness(k, Cfg(4, 2, 3, 1), (2, 1, 0))
