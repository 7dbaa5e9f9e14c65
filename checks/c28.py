"""C28: compact integer types are wide enough and minimal."""
from .prep import *
from symx import dse, solve

INTS = (np.int8, np.int16, np.int32, np.uint8, np.uint16, np.uint32)


def minimal(k):
    """ the Python function is executed on a symbolic integer; each path is decided by the solver """
    f = jaxext.minimal_unsigned_dtype
    v = z3.Int('max_value')
    dom = [v >= 0, v < 2 ** 64]
    ex = dse.Explorer(dom)
    goals = []
    cover = []
    kinds = []
    for path, res in ex.run(lambda: f(dse.SymInt(v))):
        pc = z3.And(*path) if path else z3.BoolVal(True)
        cover.append(pc)
        if isinstance(res, Exception):
            kinds.append(None)
            goals.append((f'no failure on the path {z3.simplify(pc)}: {type(res).__name__}: {res}', Not(pc)))
            continue
        t = np.dtype(res)
        kinds.append(t.name)
        goals.append((f'{t.name}: unsigned', t.kind == 'u' or Not(pc)))
        if t.kind == 'u':
            goals.append((f'{t.name}: wide enough', Implies(pc, v < 2 ** (8 * t.itemsize))))
            if t.itemsize > 1:
                goals.append((f'{t.name}: no narrower type is enough', Implies(pc, v >= 2 ** (4 * t.itemsize))))
    goals.append(('the paths cover all the values', z3.Or(cover)))

    def replay(n, model):
        x = int(model.get('max_value', 0))
        try:
            t = np.dtype(f(x))
        except Exception as e:
            return f'minimal_unsigned_dtype({x}) fails with {type(e).__name__}: {e}', dict(max_value=x)
        want = next(w for w in (8, 16, 32, 64) if x < 2 ** w)
        if t != np.dtype(f'uint{want}'):
            return f'minimal_unsigned_dtype({x}) is {t.name} instead of uint{want}', dict(max_value=x, got=t.name)
        return None
    # properties of the type that do not depend on the value
    k.prove('minimal_unsigned_dtype', dom, goals, f'0 <= max_value < 2^64, {len(kinds)} paths: {sorted(map(str, kinds))}', replay=replay)
    k.functions.add('jaxext.py:minimal_unsigned_dtype')
    k.samples += 1


def arrays(k):
    for t in INTS:
        w = np.dtype(t)
        u = np.dtype(f'uint{8 * w.itemsize}')

        def goals(args, out, draws):
            x, h = args[0], out['huge']
            a, b = I.to_cells(x), I.to_cells(out['unsigned'])
            g = [('type of the unsigned array', I.dt_of(out['unsigned']).np == u and b.shape == a.shape),
                 ('type of the largest value', I.dt_of(h).np == w and np.shape(h) == ())]
            if not all(f for _, f in g):
                return g
            hv = machine(h)
            X, U = ints(x), ints(out['unsigned'])
            n = 2 ** (8 * u.itemsize)
            for i in range(len(X)):
                g.append((f'bits: element {i}', U[i] == ite(X[i] < 0, X[i] + n, X[i])))
                g.append((f'largest: not below element {i}', machine(x)[i] <= hv))
            return g + [('largest: value', hv == int(np.iinfo(w).max))]

        def fn(x):
            return dict(unsigned=jaxext.ensure_unsigned(x), huge=jnp.asarray(jaxext.huge_value(x), x.dtype))
        Harness(k, f'ensure_unsigned, huge_value {w.name}', inputs=lambda: (run.sym_int('x', (2,), t),), fn=fn, goals=goals, raises=True,
                bounds=f'{w.name}, all values', samples=1)
        if hasattr(jaxext, 'signed_to_unsigned') and not k.violations and np.dtype(jaxext.signed_to_unsigned(w)) != u:
            k.violation(f'signed_to_unsigned({w.name}) is {jaxext.signed_to_unsigned(w)}', dict(type=w.name))
    # the largest value can be used in place of the elements, and is not smaller than any
    for t in INTS + (np.float32,):
        w = np.dtype(t)

        def goals(args, out, draws):
            x, o = machine(args[0]), machine(out)
            return [('type', I.dt_of(out).np == w), ('maximum with the largest value', o[0] == (np.inf if w.kind == 'f' else int(np.iinfo(w).max))),
                    ('minimum with the largest value', o[1] == x[1])]
        Harness(k, f'use of huge_value {w.name}', inputs=lambda: (numbers('x', (2,), t),), raises=True, samples=1, float_mode='fp', goals=goals,
                fn=lambda x: jnp.stack([jnp.maximum(x[0], jaxext.huge_value(x)), jnp.minimum(x[1], jaxext.huge_value(x))]), bounds=w.name)


def main(k):
    k.assumptions.append('64-bit integers are disabled in jax (default), so arrays have at most 32 bits')
    minimal(k)
    arrays(k)
