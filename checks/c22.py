"""C22: distinct-value extraction is exact."""
from .prep import *


def harness(k, n, size, dtype, fill, infinite=False):
    name = f'n={n} size={size} {np.dtype(dtype).name} fill={fill}'

    def goals(args, res, draws):
        x = machine(args[0])
        out, num = machine(res[0]), N.of(ints(res[1]))
        g = [('shape', np.shape(res[0]) == (size,) and np.shape(res[1]) == ()),
             ('type', np.dtype(res[0].dt.np if isinstance(res[0], SA) else np.asarray(res[0]).dtype) == np.dtype(dtype))]
        if not g[0][1]:
            return g
        d = distinct_count(list(x))
        g.append(('number: smaller of distinct values and slots', num == ite(d < size, d, N(size))))
        for j in range(size):
            used = num > j
            g.append((f'values: slot {j} holds one of the values', Implies(used, member(out[j], x))))
            if j:
                g.append((f'values: slots {j - 1}, {j} increasing', Implies(used, out[j - 1] < out[j])))
            g.append((f'fill: slot {j}', Implies(Not(used), out[j] == fill)))
            # nothing smaller than the last value returned is missing
            g.append((f'smallest: up to slot {j}', Implies(num == j + 1, all_([Or(member(v, out[:j + 1]), And(v > out[j], num == size)) for v in x]))))
        return g

    def reach(args, res, draws):
        if not n or not size:
            return []
        x = list(machine(args[0]))
        return [('repeated value', distinct_count(x) == n - 1)] if n > 1 else []
    Harness(k, name, inputs=lambda: (numbers('x', (n,), dtype, infinite),), fn=lambda x: jaxext.unique(x, size, np.dtype(dtype).type(fill)), goals=goals, reach=reach,
            raises=True, float_mode='fp', bounds=name, samples=1)


def main(k):
    k.assumptions.append('floats: ' + FLOATS)
    for n in range(5):
        for size in range(n + 2):
            harness(k, n, size, np.float32, np.inf, infinite=True)
            harness(k, n, size, np.int32, -7)
    for dt in (np.int8, np.uint8, np.int16, np.uint16, np.uint32):
        for size in (2, 3, 5):
            harness(k, 4, size, dt, np.iinfo(dt).max)
    harness(k, 4, 6, np.float32, 0.)
    harness(k, 5, 5, np.float32, -1.5)
    harness(k, 5, 5, np.uint8, 0)
    if k.thorough:
        for size in (3, 6, 7):
            harness(k, 6, size, np.float32, np.inf)
            harness(k, 6, size, np.int32, 5)
            harness(k, 7, size, np.uint8, 5)
