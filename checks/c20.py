"""C20: binning is exact and right-closed."""
from .prep import *
from bartz import prepcovars


def harness(k, p, n, m, xdt, sdt, limit=None, infinite=True, padded=True, live=None, **kw):
    """ live: cutpoints that are symbolic, between the neighbours (the others are multiples of 4) """
    name = f'p={p} n={n} m={m} {np.dtype(xdt).name}/{np.dtype(sdt).name} limit={limit}' + (f' {kw}' if kw else '')
    same = np.dtype(xdt).kind == np.dtype(sdt).kind

    def inputs():
        lo = hi = None
        if not same:  # integers and floats: converted exactly
            lo, hi = max(-2 ** 24, DT(xdt).min) if np.dtype(xdt).kind in 'iu' else None, min(2 ** 24, DT(xdt).max) if np.dtype(xdt).kind in 'iu' else None
        X = numbers('X', (p, n), xdt, infinite, lo, hi)
        if live is None:
            S = numbers('S', (p, m), sdt, infinite)
        else:
            c = I.oempty((p, m))
            for i in np.ndindex(p, m):
                v = 4 * i[1] + 4
                c[i] = C.ivar(run.nm('S', i), DT(sdt), v, v + 4) if i[1] in live else v
            S = SA(DT(sdt), c)
        return X, S

    def pre(args):
        S = machine(args[1])
        return [S[i, j] <= S[i, j + 1] for i in range(p) for j in range(m - 1)]

    def goals(args, out, draws):
        X, S, o = machine(args[0]), machine(args[1]), ints(out)
        dt = np.dtype(out.dt.np if isinstance(out, SA) else np.asarray(out).dtype)
        g = [('shape', np.shape(out) == (p, n)), ('type: holds the number of cutpoints', dt.kind == 'u' and np.iinfo(dt).max >= m)]
        if not g[0][1]:
            return g
        for i in range(p):
            for j in range(n):
                if live is None:
                    g.append((f'bin: predictor {i} point {j}', o[i, j] == count([S[i, l] < X[i, j] for l in range(m)])))
                else:  # the definition by the neighbouring cutpoints
                    g.append((f'bin: range of {i} {j}', And(o[i, j] >= 0, o[i, j] <= m)))
                    for l in range(m):
                        g.append((f'bin: predictor {i} point {j} cutpoint {l}', Iff(o[i, j] > l, S[i, l] < X[i, j])))
        return g

    def reach(args, out, draws):
        if not p or not n or not m:
            return []
        X, S = machine(args[0]), machine(args[1])
        return [('a value equal to a cutpoint', X[-1, -1] == S[-1, m // 2]), ('a value above all the cutpoints', X[0, 0] > S[0, m - 1])]
    with byte_limit(limit):
        Harness(k, name, inputs=inputs, fn=lambda X, S: unjit(prepcovars.bin_predictors)(X, S, **kw), goals=goals, pre=pre, reach=reach,
                raises=True, float_mode='fp', bounds=name, samples=1, unwind=16)


def main(k):
    k.assumptions.append('floats: ' + FLOATS)
    k.assumptions.append('cutpoints of each predictor in nondecreasing order (the padding with the largest value of the type included)')
    k.outside.append('integer predictors beyond 2^24 in magnitude compared with float cutpoints (they are rounded to single precision)')
    f = np.float32
    for m in range(6):
        harness(k, 1, 2, m, f, f)
    harness(k, 1, 1, 9, f, f)
    for dt in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32):
        harness(k, 1, 2, 3, dt, dt)
        harness(k, 1, 1, 7, dt, dt)
    for a, b in [(np.int8, np.int16), (np.int16, np.int32), (np.uint8, f), (np.int32, f), (np.int8, f), (f, np.int32)][:5]:
        harness(k, 1, 1, 4, a, b)
    for limit in (1, 12, 30, 50, None):
        harness(k, 2, 2, 2, f, f, limit)
        harness(k, 3, 1, 2, np.int32, np.int32, limit)
        harness(k, 4, 1, 1, np.uint8, np.uint8, limit)
    harness(k, 2, 0, 2, f, f)
    for method in ('scan_unrolled', 'sort', 'compare_all'):
        harness(k, 1, 2, 3, f, f, method=method)
    # width of the result
    for m in (254, 255, 256, 257):
        harness(k, 1, 1, m, np.uint16, np.uint16, live=[0, 1, 127, 254])
    if k.thorough:
        for m in (6, 7, 8, 12, 15, 16):
            harness(k, 2, 2, m, f, f)
        for m in (65535, 65536):
            harness(k, 1, 1, m, np.uint32, np.uint32, live=[0, 1, 255, 65534])
