"""C11: no randomness is shared."""
import itertools

from .mcmc import *
from symx import interp, check

INT = z3.IntSort()


def key_sort():
    K = z3.Datatype('Key')
    K.declare('root')
    K.declare('const', ('id', INT))
    K.declare('split', ('sparent', K), ('num', INT), ('index', INT))
    K.declare('fold', ('fparent', K), ('data', INT))
    return K.create()


class Keys:
    """ keys as terms of the free algebra of split and fold_in over the seed key """

    def __init__(self):
        self.S = key_sort()
        self.cache = {}
        self.consts = {}

    def __call__(self, t):
        if t not in self.cache:
            S = self.S
            if t[0] == 'root':
                e = S.root
            elif t[0] == 'data':
                e = S.const(self.consts.setdefault(t[1], len(self.consts)))
            elif t[0] == 'split':
                n = int(np.prod(t[2], dtype=int))
                e = S.split(self(t[1]), n, int(np.ravel_multi_index(t[3], t[2])) if t[2] else 0)
            else:
                e = S.fold(self(t[1]), int(t[2]))
            self.cache[t] = e
        return self.cache[t]


def trace_keys(fn, *args):
    C.CTX.reset(float_mode='real', nonlin='uf')
    C.CTX.cutlog = True
    C.CTX.functions = set()
    C.CTX.keyuse = []
    run.symrun(fn, *args)
    return [k for k in C.CTX.keyuse]


def reproduce(t):
    """ value of a key with the real jax.random """
    return np.asarray(jax.random.key_data(I.real_key(t, {'root': jax.random.key(20240607)}))).tolist()


def goals(k, name, use, bounds, min_draws=1):
    draws = [u for u in use if u[0] == 'draw']
    derive = [u for u in use if u[0] != 'draw']
    K = Keys()
    if len(draws) < min_draws:
        k.error(f'{name}: only {len(draws)} draws were seen')
        return
    x, y = z3.Const('x', K.S), z3.Const('y', K.S)
    i, j, l = z3.Ints('i j l')
    # the key of draw i, of derivation j
    D = lambda n, e: z3.Or([z3.And(n == m, e == K(u[1])) for m, u in enumerate(draws)])
    V = lambda n, e: z3.Or([z3.And(n == m, e == K(u[1])) for m, u in enumerate(derive)] or [z3.BoolVal(False)])
    goals = [
        ('different draws use different keys', Not(And(D(i, x), D(j, x), i != j))),
        ('the key of a draw is not used to derive keys', Not(And(D(i, x), V(j, x)))),
        ('all keys come from the given one', all_([Not(contains_const(K, u[1])) for u in draws])),
    ]

    def replay(n, model):
        if n.startswith('all keys'):
            bad = [u for u in draws if contains_const(K, u[1])][0]
            return n, dict(draw=str(bad))
        a = draws[model['i']]
        b = (draws if n.startswith('different') else derive)[model['j']]
        if reproduce(a[1]) == reproduce(b[1]):
            return f'{n}: {a[2]} and {b[0], b[2]} use the key {reproduce(a[1])}', dict(first=str(a), second=str(b), bounds=bounds)
        return None
    k.samples += 1
    k.prove(name, [], goals, bounds + f': {len(draws)} draws, {len(derive)} derivations', replay=replay)
    k.absorb()


def contains_const(K, t):
    while t[0] in ('split', 'fold'):
        t = t[1]
    return t != ('root', 'root')


def main(k):
    k.assumptions.append('different split / fold_in paths from the seed key give independent keys (contract of jax.random)')
    cfgs = [Cfg(2, 1, 2, 1, struct=[set()]), Cfg(3, 2, 2, 2, struct=[{1}, set()], ratios=True),
            Cfg(3, 2, 1, 3, minp=None, struct=[{1}, {1, 2, 3}, {1, 3}]), Cfg(2, 1, 0, 40, minp=None, sym_p=False, struct=[set()] * 40)]
    if k.thorough:
        cfgs += [Cfg(4, 2, 2, 2, struct=[{1, 2}, {1, 2, 3}]), Cfg(2, 1, 0, 130, minp=None, sym_p=False, struct=[set()] * 130)]
    for c in cfgs:
        trees = c.ntree
        try:
            use = trace_keys(mcmcstep.step, *build(c))
        except C.Unsupported as e:
            k.error(f'step: cannot encode: {e}')
            continue
        # at least one draw per choice: kind, acceptance, leaf, predictor, cutpoint, node to prune, leaf values, variance
        goals(k, f'step {c.d}-{trees}', use, f'd={c.d} trees={trees} n={c.n}', min_draws=3)
    # the keys given to the steps by the loop are neither shared nor derived from each other
    from bartz import mcmcloop
    for nb, ns, nk in [(2, 2, 2), (0, 3, 1), (3, 0, 1), (1, 2, 3)] + ([(5, 7, 3), (0, 40, 1)] if k.thorough else []):
        use = loop_keys(mcmcloop, nb, ns, nk)
        name = f'run {nb} {ns} {nk}'
        draws = [u for u in use if u[0] == 'draw']
        if len(draws) != nb + ns * nk:
            k.error(f'{name}: {len(draws)} steps instead of {nb + ns * nk}')
            continue
        goals(k, name, use, f'n_burn={nb} n_save={ns} n_skip={nk}, step replaced by one use of its key')
        # no ancestor of the key of a step is the key of another one
        K = Keys()
        x, y = z3.Const('x', K.S), z3.Const('y', K.S)
        i, j = z3.Ints('i j')
        anc = []
        for m, u in enumerate(draws):
            t = u[1]
            while t[0] in ('split', 'fold'):
                t = t[1]
                anc.append(z3.And(j == m, x == K(t)))
        D = z3.Or([z3.And(i == m, x == K(u[1])) for m, u in enumerate(draws)])

        def replay(n, model):
            return n, dict(step=str(draws[model['i']]), descendant=str(draws[model['j']]))
        k.prove(name + ': keys of the steps', [], [('no step uses a key derived from the key of another step', Not(And(D, z3.Or(anc or [z3.BoolVal(False)]))))],
                replay=replay)


def build(c):
    C.CTX.reset(float_mode='real', nonlin='uf')
    return sym_state(c), I.root_key()


def loop_keys(mcmcloop, nb, ns, nk):
    b = init_state(Cfg(2, 1, 2, 1, minp=None))
    orig = mcmcstep.step

    def step(bart, key):
        z = jax.random.normal(key, (), jnp.float32)
        return dict(bart, sigma2=bart['sigma2'] + z)
    mcmcstep.step = step
    jax.clear_caches()
    try:
        f = lambda bart, key: mcmcloop.run_mcmc.__wrapped__(bart, nb, ns, nk, lambda **k: None, key) \
            if hasattr(mcmcloop.run_mcmc, '__wrapped__') else mcmcloop.run_mcmc(bart, nb, ns, nk, lambda **k: None, key)
        return trace_keys(f, b, I.root_key())
    finally:
        mcmcstep.step = orig
        jax.clear_caches()
