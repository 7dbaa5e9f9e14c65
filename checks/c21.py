"""C21: uniform cutpoints divide the observed range evenly."""
from .prep import *
from bartz import prepcovars

TOL = 1e-5


def absr(x):
    return ite(x >= 0., x, -x)


def harness(k, p, n, bins, dtype=np.float32, lo=None, hi=None, bounded=False):
    name = f'p={p} n={n} bins={bins} {np.dtype(dtype).name}' + (f' in {lo}..{hi}' if lo is not None else '')

    def inputs():
        if np.dtype(dtype).kind == 'f':
            return (run.sym_real('X', (p, n), dtype),)
        return (run.sym_int('X', (p, n), dtype, lo, hi),)

    def goals(args, out, draws):
        s, num = out
        g = [('shape', np.shape(s) == (p, bins - 1) and np.shape(num) == (p,))]
        if not g[0][1]:
            return g
        X, S, M = reals(args[0]), reals(s), ints(num)
        for i in range(p):
            g.append((f'number of cutpoints: predictor {i}', M[i] == bins - 1))
            xs = list(X[i])
            low = high = xs[0]
            for x in xs[1:]:
                low, high = ite(x < low, x, low), ite(x > high, x, high)
            scale = absr(low) + absr(high)
            for j in range(bins - 1):
                e = low * ((bins - 1 - j) / bins) + high * ((j + 1) / bins)
                g.append((f'grid: predictor {i} cutpoint {j}', And(S[i, j] - e <= scale * TOL, e - S[i, j] <= scale * TOL)))
        return g
    Harness(k, name, inputs=inputs, fn=lambda X: unjit(prepcovars.uniform_splits_from_matrix)(X, bins), goals=goals, raises=True, bounds=name, samples=1)


def main(k):
    k.assumptions.append(f'exact arithmetic on symbolic values, constants rounded to single precision; grid positions within {TOL} of the sum of '
                         'the magnitudes of the extremes')
    k.outside.append('predictors without observations (n = 0), for which the code fails; overflow')
    for p, n, binss in [(1, 1, (1, 2, 3, 4)), (1, 2, (1, 2, 3, 4, 5, 6, 7, 8, 10, 13)), (2, 3, (1, 2, 3, 5)), (3, 2, (2, 4)), (1, 5, (2, 3)), (4, 4, (3,))]:
        for bins in binss:
            harness(k, p, n, bins)
    for bins in (2, 3, 5):
        harness(k, 2, 2, bins, np.uint8, 0, 7)
        harness(k, 1, 3, bins, np.int8, -4, 4)
        harness(k, 1, 2, bins, np.int32, 1000, 1007)
        harness(k, 1, 2, bins, np.uint8, 245, 255)
    for bins in (255, 256, 257, 300):
        harness(k, 1, 2, bins)
    if k.thorough:
        for bins in (32, 64, 100, 512, 1000, 65536, 65537):
            harness(k, 1, 2, bins)
        for n in (6, 8):
            harness(k, 2, n, 4)
