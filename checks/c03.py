"""C03: stored leaf memberships agree with the trees."""
from .mcmc import *


def deep(d, free=1, **kw):
    """ a chain of decision nodes down to the deepest levels """
    h = 2 ** (d - 1)
    nodes = [h - 1 >> j for j in range(d - 1)][::-1]
    fixed = {n: (0, 10 * (j + 1)) for j, n in enumerate(nodes)}
    for n in nodes[len(nodes) - free:]:
        fixed.pop(n)
    if not free:
        fixed[nodes[-1]] = (0, 0)
    return Cfg(d, 1, 1, 1, minp=None, nodes=nodes, sym_p=False, fixed=fixed, **kw)


def main(k):
    for c in [Cfg(3, 2, 2, 2), Cfg(4, 2, 1, 1), Cfg(3, 2, 2, 1, minp=None)]:
        step_harness(k, f'step {c.d}-{c.ntree}-{c.minp}', c, ('li',))
    c = deep(8)
    step_harness(k, f'step {c.d}', c, ('li',), reach=lambda a, b: reach_moves(a, b)[:3])
    c = deep(9, int(k.thorough))
    step_harness(k, f'step {c.d}', c, ('li',), reach=lambda a, b: reach_moves(a, b)[:1])
