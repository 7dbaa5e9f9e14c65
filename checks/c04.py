"""C04: residuals."""
from .mcmc import *


def main(k):
    for c in [Cfg(3, 2, 2, 2), Cfg(4, 2, 1, 1), Cfg(3, 2, 2, 1, minp=None)]:
        step_harness(k, f'step {c.d}-{c.ntree}-{c.minp}', c, ('resid',))
