"""C31: default scale of the prior on the error variance."""
from fractions import Fraction

import scipy.stats

from .iface import *

DATA = {
    'line': [[1, 2, 4]],
    'line4': [[0, 1, -1, 3]],
    'plane': [[1, 2, 3, 5], [0, 1, -1, 1]],
    'constant': [[2, 2, 2]],
    'collinear': [[1, 2, 3, 5], [2, 4, 6, 10]],
    'same': [[1, 0, 2, -1, 3], [1, 0, 2, -1, 3], [0, 1, 1, 0, 2]],
    'three': [[1, 2, 3, 5, -1], [0, 1, -1, 1, 2], [1, 0, 0, 2, 1]],
    'exact': [[1, 2, 3], [0, 1, -1]],
    'five': [[1, 2, 3, 5, -1, 4], [0, 1, -1, 1, 2, 2], [1, 0, 0, 2, 1, -3]],
    'bytes': [[120, -128, 127, 3], [-100, 127, 127, 0]],
    'none': None,
}


def projector(x):
    """ (n x n residual matrix of the regression with intercept, rank of the centred predictors), exact """
    p, n = len(x), len(x[0]) if x else 0
    basis = []
    for c in [[Fraction(1)] * n] + [[Fraction(v) for v in r] for r in x]:
        v = list(c)
        for b in basis:
            q = sum(i * j for i, j in zip(v, b)) / sum(i * i for i in b)
            v = [i - q * j for i, j in zip(v, b)]
        if any(v):
            basis.append(v)
    M = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for b in basis:
        s = sum(i * i for i in b)
        for i in range(n):
            for j in range(n):
                M[i][j] -= b[i] * b[j] / s
    return M, len(basis) - 1


def harness(k, name, x=None, n=None, p=None, given=None, quant=None, df=None, offset=False, lamda=False, xdt=np.float32, ylim=1, timeout=150, ydt=np.float32, frame=False):
    """ given: None or 'symbolic' or a number, value of sigest """
    if x is None:
        x = [[((3 * i + 5 * j) % 7) + i for j in range(n)] for i in range(p)]
    p, n = len(x), len(x[0])
    xa = np.array(x, xdt).reshape(p, n)

    def inputs():
        a = dict(y=run.sym_real('y', (n,)) if np.dtype(ydt).kind == 'f' else run.sym_int('y', (n,), ydt), table=table_inputs(1, 1, 1, p, 2, concrete=True))
        if given == 'symbolic':
            a['sigest'] = run.sym_real('sigest', (), pos=True)
        if offset:
            a['offset'] = run.sym_real('offset', ())
        if lamda:
            a['lamda'] = run.sym_real('lamda', (), pos=True)
        return a,

    def fn(a):
        kw = {f: a[f] for f in ('sigest', 'offset', 'lamda') if f in a}
        if given is not None and given != 'symbolic':
            kw['sigest'] = given
        if quant is not None:
            kw['sigquant'] = quant
        if df is not None:
            kw['sigdf'] = df
        X, Y = jnp.asarray(xa), a['y']
        if frame:
            X, Y = (pandas_frame(X), pandas_series(Y)) if frame == 'pandas' else (polars_frame(X), polars_series(Y))
        bart, state, _ = fit(a['table'], X, Y, ntree=1, maxdepth=1, numcut=2, ndpost=1, nskip=0, usequants=n == 0, **kw)
        return dict(lamda=scalar(bart.lamda), sigest=scalar(-1. if bart.sigest is None else bart.sigest), scale=scalar(bart.scale),
                    alpha=state['sigma2_alpha'], beta=state['sigma2_beta'], sigma2=state['sigma2'])

    def goals(args, out, draws):
        a, = args
        g = [(f'shape of {f}: {np.shape(out[f])}', np.shape(out[f]) == ()) for f in ('lamda', 'sigest')]
        if not all(f for _, f in g):
            return g
        y = list(reals(a['y']))
        lam, sig, s = (reals(out[f]) for f in ('lamda', 'sigest', 'scale'))
        nu, qu = (3 if df is None else df), (.9 if quant is None else quant)
        q = float(scipy.stats.chi2.ppf(1 - qu, nu)) / nu
        near = lambda u, v, tol: And(u - v <= tol, v - u <= tol)
        if lamda:
            want = reals(a['lamda'])
            g.append(('scale given', close(lam, want)))
            g.append(('no estimate of the error', close(sig, -1.)))
        else:
            norm = total(v * v for v in y) if n else R.of(0)
            tol = norm * 1e-3
            if given is not None:
                v = reals(a['sigest']) if given == 'symbolic' else R.of(float(given))
                s2, tol = v * v, v * v * 1e-5
            elif n < 2:
                s2, tol = R.of(1.), R.of(1e-5)
            elif n <= p:
                m = total(y) * (1 / n)
                s2 = total((v - m) * (v - m) for v in y) * (1 / n)
            else:
                M, rank = projector(x)
                s2 = R.of(0)
                for i in range(n):
                    for j in range(n):
                        if M[i][j]:
                            s2 = s2 + y[i] * y[j] * float(M[i][j])
                s2 = s2 * (1 / (n - rank))
            g.append(('estimate of the error', And(sig >= 0, near(sig * sig, s2, tol))))
            g.append(('scale of the prior', near(lam * (1 / q), s2, tol)))
        want = reals(a['lamda']) if lamda else lam
        g.append(('shape of the prior in the sampler', close(reals(out['alpha']) * 2, float(nu))))
        g.append(('scale of the prior in the sampler', close(reals(out['beta']) * s * s * 2, want * float(nu))))
        return g

    def pre(args):
        a, = args
        y = list(reals(a['y']))
        f = [v <= ylim for v in y] + [v >= -ylim for v in y] if np.dtype(ydt).kind == 'f' else []
        if n > 1:
            f += [y[0] - y[1] >= .01]
        for u in ('sigest', 'lamda'):
            if u in a:
                f += [reals(a[u]) >= .01, reals(a[u]) <= 100]
        return f

    full = (f'{name}: n={n} p={p} x:{np.dtype(xdt).name}' + (f' sigest={given}' if given is not None else '') + (f' sigquant={quant}' if quant is not None else '')
            + (f' sigdf={df}' if df is not None else '') + (f' {frame}' if frame else ''))
    Harness(k, full, inputs=inputs, fn=fn, goals=goals, pre=pre, raises=True, samples=2, bounds=full, timeout=timeout)


def main(k):
    k.assumptions += ['exact arithmetic for the response, with values in [-1, 1] and not constant; the predictors and the quantiles of the chi-squared '
                      'distribution are given numbers',
                      'the singular value decomposition of the given predictors is computed by the real code']
    k.outside.append('nearly collinear predictors (numerical rank)')
    with patched():
        for qu, nu in ((None, None), (.5, 3), (.9, 1), (.99, 10), (.75, 4.5), (.05, 2)):
            harness(k, 'sigest', n=2, p=1, given='symbolic', quant=qu, df=nu)
        harness(k, 'sigest', n=3, p=1, given=2, offset=True)
        harness(k, 'sigest', n=0, p=1, given=.5)
        harness(k, 'scale', n=3, p=1, lamda=True, given=3.)
        harness(k, 'scale', n=3, p=2, lamda=True, df=7)
        harness(k, 'no points', n=0, p=1)
        harness(k, 'one point', n=1, p=1, offset=True)
        harness(k, 'one point', n=1, p=3)
        harness(k, 'few points', n=2, p=2, offset=True)
        harness(k, 'few points', n=3, p=3)
        harness(k, 'few points', n=2, p=3)
        for f in ('line', 'plane', 'constant', 'collinear', 'same', 'exact'):
            harness(k, f'regression {f}', x=DATA[f], offset=f in ('line', 'same'))
        harness(k, 'regression', x=DATA['bytes'], xdt=np.int8)
        harness(k, 'regression', x=DATA['plane'], quant=.5, df=5, frame='pandas')
        harness(k, 'regression', x=DATA['plane'], xdt=np.uint8 if min(map(min, DATA['plane'])) >= 0 else np.int16, frame='polars')
        if k.thorough:
            for f in ('line4', 'three', 'five'):
                harness(k, f'regression {f}', x=DATA[f], offset=True)
            for n in (4, 5):
                harness(k, 'few points', n=n, p=n, offset=True)
