"""C05: minimum points."""
from .mcmc import *


def main(k):
    for c in [Cfg(3, 2, 3, 2), Cfg(4, 2, 3, 1)]:
        step_harness(k, f'step {c.d}-{c.ntree}-{c.minp}', c, ('min', 'aff'))
