"""C19: quantile cutpoints separate the observed values."""
from .prep import *
from bartz import prepcovars


def between(name, values, free, dtype):
    """ increasing numbers, those at the positions in free are arbitrary from the value to the following one """
    dt = DT(dtype)
    c = I.oempty((1, len(values)))
    for i, v in enumerate(values):
        c[0, i] = C.ivar(f'{name}_{i}', dt, v, values[i + 1] if i + 1 < len(values) else v + 3) if i in free else v
    return SA(dt, c)


def spec(X, splits, num, bins, dtype, even=True, sorted_=False):
    p, n = X.shape
    m = min(bins, n) - 1
    g = []
    for i in range(p):
        xs = list(X[i])
        k = num[i]
        d = distinct_count(xs) if not sorted_ else count([i == 0 or xs[i - 1] < xs[i] for i in range(n)])
        s = splits[i]
        g.append((f'number of cutpoints: predictor {i}', k == ite(d - 1 < m, d - 1, N(m))))
        for j in range(m):
            used = k > j
            # stronger goal when the values are almost fixed: a value around that position
            near = xs[max(0, j - 3):j + 8] if sorted_ and bins > n - 4 else xs
            if j:
                g.append((f'increasing: predictor {i} cutpoints {j - 1}, {j}', Implies(used, s[j - 1] < s[j])))
            g.append((f'separates: predictor {i} cutpoint {j}: values before it',
                      Implies(used, any_([And(x <= s[j], s[j - 1] < x if j else True) for x in near]))))
            g.append((f'separates: predictor {i} cutpoint {j}: values after it', Implies(used, any_([x > s[j] for x in near]))))
            g.append((f'padding: predictor {i} slot {j}', Implies(Not(used), huge(s[j], dtype))))
        if even and m:
            # values in each bin, not counting repetitions
            first = [all_([xs[l] != xs[o] for o in range(l)]) for l in range(n)]
            c = []
            for j in range(m + 1):
                inb = [And(first[l], xs[l] <= s[j] if j < m else True, s[j - 1] < xs[l] if j else True) for l in range(n)]
                c.append(count(inb))
            dec = d > m + 1
            for a in range(m + 1):
                for b in range(m + 1):
                    if a != b:
                        g.append((f'even: predictor {i} bins {a}, {b}', Implies(dec, c[a] <= c[b] + 1)))
    return g


def huge(v, dtype):
    return v == V(np.float32(np.inf), F32) if np.dtype(dtype).kind == 'f' else v == V(int(np.iinfo(dtype).max), DT(dtype))


def harness(k, p, n, bins, dtype, limit=None, values=None, free=None, ranks=None, **kw):
    name = f'p={p} n={n} bins={bins} {np.dtype(dtype).name} limit={limit}' + (f' mostly fixed values, arbitrary: {free}' if free else '') + (f' order of the values {ranks}' if ranks else '')

    def inputs():
        if ranks is not None:
            return (ordered('X', ranks, dtype),)
        return (numbers('X', (p, n), dtype) if values is None else between('X', values, free, dtype),)

    def goals(args, out, draws):
        X = machine(args[0])
        s, num = out
        m = min(bins, n) - 1
        g = [('shape', np.shape(s) == (p, m) and np.shape(num) == (p,))]
        if not g[0][1]:
            return g
        return g + spec(X, machine(s), ints(num), bins, dtype, sorted_=values is not None, **kw)

    def reach(args, out, draws):
        xs = list(machine(args[0])[-1])
        if free or ranks or n < 2:
            return []
        r = [('all the values are distinct', distinct_count(xs) == n)]
        return r + [('repeated value', distinct_count(xs) == n - 1)]
    with byte_limit(limit):
        Harness(k, name, inputs=inputs,
                fn=lambda X: unjit(prepcovars.quantilized_splits_from_matrix)(X, bins), goals=goals, reach=reach, raises=True, float_mode='fp',
                bounds=name, samples=1, group=free is not None, variants=1)


def main(k):
    k.assumptions.append('floats: ' + FLOATS)
    f = np.float32
    for n in (1, 2):
        for bins in range(1, n + 2):
            harness(k, 1, n, bins, f)
    for ranks, binss in [([1, 0, 2], (1, 2, 3, 4)), ([0, 1, 0], (2, 3)), ([0, 0, 0], (1, 3)), ([1, 3, 0, 2, 4], (3, 5, 6)), ([1, 3, 0, 2, 1], (2, 4)),
                         ([1, 3, 5, 0, 2, 4], (2,))]:
        for bins in binss:
            harness(k, 1, len(ranks), bins, f, ranks=ranks, even=bins < 4)
    for n in (1, 2, 3, 4):
        for bins in range(1, n + 2):
            harness(k, 1, n, bins, np.uint8)
    harness(k, 1, 5, 3, np.uint8)
    harness(k, 1, 5, 5, np.uint8)
    for dt in (np.int8, np.int16, np.uint16, np.int32, np.uint32):
        for bins in (2, 4):
            harness(k, 1, 3, bins, dt)
    for limit in (1, 30, None):
        harness(k, 3, 2, 2, np.int32, limit)
        harness(k, 2, 3, 2, np.uint8, limit)
    harness(k, 2, 2, 2, f, 1)
    # width of the types
    for n, bins in [(256, 300), (257, 300), (258, 256), (258, 257)]:
        harness(k, 1, n, bins, np.uint16, values=[7 * i for i in range(n)], free=[0, 1, 60, n - 2, n - 1], even=False)
    # numbers of bins such that ties in the rounding of the positions are exact
    harness(k, 1, 300, 21, np.uint16, values=[7 * i for i in range(300)], free=[0, 60, 299], even=False)
    for n, bins in [(6, 3), (14, 7), (15, 5), (20, 7), (26, 13)]:
        harness(k, 1, n, bins, np.uint16, values=[7 * i for i in range(n)], free=[0, n // 2])
    if k.thorough:
        harness(k, 1, 3, 2, f)
        harness(k, 1, 3, 3, f)
        for n in (5, 6, 7):
            for bins in range(2, n + 2):
                harness(k, 1, n, bins, f, ranks=[(3 * i + 1) % n for i in range(n)] if n % 3 else [(5 * i + 1) % n for i in range(n)])
        for dt in (np.int8, np.int16, np.uint16, np.int32, np.uint32):
            for bins in (3, 5):
                harness(k, 1, 4, bins, dt)
        for n, bins in [(255, 300), (258, 300), (258, 255), (300, 257), (512, 512)]:
            harness(k, 1, n, bins, np.uint16, values=[7 * i for i in range(n)], free=[0, 1, 60, n - 2, n - 1], even=False)
        for bins in range(2, 8):
            harness(k, 1, 6, bins, np.uint8)
            harness(k, 1, 5, bins, np.int32)
            harness(k, 1, 5, bins, np.uint32)
