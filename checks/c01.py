"""C01: trees stay well formed."""
from .mcmc import *


def main(k):
    cfgs = [Cfg(3, 2, 2, 2), Cfg(4, 2, 2, 1), Cfg(3, 2, 2, 1, minp=None)]
    for c in cfgs:
        step_harness(k, f'step {c.d}-{c.ntree}-{c.minp}', c, ('form',))
