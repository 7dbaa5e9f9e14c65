"""C02: every decision rule is usable."""
from .mcmc import *


def main(k):
    for c in [Cfg(3, 2, 1, 2), Cfg(4, 2, 1, 1), Cfg(3, 3, 1, 1, minp=None)]:
        step_harness(k, f'step {c.d}-{c.ntree}-{c.minp}', c, ('rules',))
    c = Cfg(3, 256, 1, 1, minp=None, feats={0, 1, 254, 255})
    step_harness(k, 'step p=256', c, ('rules',))
    c = Cfg(3, 257, 1, 1, minp=None, feats={0, 1, 255, 256})
    step_harness(k, 'step p=257', c, ('rules',))
