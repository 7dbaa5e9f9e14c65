"""C10: noise variance."""
from .mcmc import *


def goals(b0, b1, draws):
    g = [d for d in draws if d.kind == 'gamma']
    out = [('gamma: one draw', len(g) == 1)]
    if len(g) != 1:
        return out
    g = g[0]
    r = reals(b1['resid'])
    n = len(r)
    al, be = reals(b0['sigma2_alpha']), reals(b0['sigma2_beta'])
    s2 = reals(b1['sigma2'])
    sc = 1.
    if not isinstance(b0['resid'], SA):
        sc = max(1., float(be.c + sum(float(x.c) ** 2 for x in r)) / max(float(g.value.c), 1e-30))
    out.append(('gamma: shape', close(g.bounds[0], al + n / 2)))
    out.append(('value: posterior scale over gamma draw', close(s2, (be + total(x * x for x in r) * .5) / g.value, sc)))
    out.append(('pos: positive', Implies(be > 0, s2 > 0)))
    return out


def main(k):
    for n in (0, 1, 2, 3, 5):
        c = Cfg(2, 1, n, 1, struct=[set()])

        def inputs():
            b = sym_state(c)
            b['resid'] = run.sym_real('res', (n,))
            return b, I.root_key()
        if hasattr(mcmcstep, 'sample_sigma'):
            Harness(k, f'sample_sigma {n}', inputs=inputs, fn=mcmcstep.sample_sigma, goals=lambda a, o, d: goals(a[0], o, d),
                    pre=lambda a: [reals(a[0]['sigma2_beta']) >= 0], bounds=str(c), raises=True)
    for c in [Cfg(3, 2, 3, 2), Cfg(2, 1, 2, 1, minp=None), Cfg(3, 2, 0, 2)]:
        step_harness(k, f'step {c.d}-{c.ntree}-{c.n}', c, (), goals=lambda b0, b1, d: [g for g in goals(b0, b1, d) if g[0][:3] != 'pos'],
                     reach=lambda a, b: [])
