"""C34: inputs that do not match are refused, inputs that match are accepted."""
import contextlib
import functools
import os
from unittest import mock

from .iface import *
from symx import dse


class StandIn(Exception):
    """ operation not supported by the stand-ins """


def arithmetic(cls):
    for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or', 'xor'):
        setattr(cls, f'__{n}__', lambda self, o: Opaque())
        setattr(cls, f'__r{n}__', lambda self, o: Opaque())
    for n in ('neg', 'pos', 'abs', 'invert'):
        setattr(cls, f'__{n}__', lambda self: Opaque())
    return cls


@arithmetic
class Opaque:
    """ a result that is not of interest """
    __hash__ = None
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Opaque()
    def __call__(self, *a, **k): return Opaque()
    def __getitem__(self, i): return Opaque()
    def __bool__(self): raise StandIn('branch on a value')
    def __iter__(self): raise StandIn('iteration on a value')
    def __len__(self): raise StandIn('length of a value')
    def __float__(self): raise StandIn('conversion of a value')
    __int__ = __index__ = __array__ = __jax_array__ = __float__


@arithmetic
class Array:
    """ an array of given, possibly symbolic, shape, values of no interest """
    __hash__ = None

    def __init__(self, shape, dtype=np.float32):
        self.shape, self.ndim, self.dtype = tuple(shape), len(shape), np.dtype(dtype)

    @property
    def size(self): return functools.reduce(lambda a, b: a * b, self.shape, 1)
    @property
    def T(self): return Array(self.shape[::-1], self.dtype)
    def transpose(self): return self.T
    def astype(self, *a, **k): return self
    def __getattr__(self, n):
        if n.startswith('__') or n in ('columns', 'to_numpy', 'name', 'values', 'index'):
            raise AttributeError(n)
        return Opaque()
    def __getitem__(self, i): return Opaque()
    def __bool__(self): raise StandIn('branch on a value')
    def __iter__(self): raise StandIn('iteration on an array')
    def __len__(self): raise StandIn('length of an array')
    __int__ = __float__ = __index__ = __array__ = __jax_array__ = __iter__


ours = lambda x: isinstance(x, (Array, Opaque))


class Module:
    """ jax.numpy and its submodules, that let the stand-ins through """
    def __init__(self, mod): self.__dict__['_mod'] = mod

    def __getattr__(self, n):
        f = getattr(self._mod, n)
        if type(f) is type(np):
            return Module(f)
        if isinstance(f, type) or not callable(f) or n in ('issubdtype',):
            return f

        def call(*a, **k):
            if not any(map(ours, [*a, *k.values()])):
                return f(*a, **k)
            if n in ('asarray', 'array') and isinstance(a[0] if a else None, Array):
                return a[0]
            if n in ('shape', 'ndim', 'size') and isinstance(a[0] if a else None, Array):
                return getattr(a[0], n)
            if n == 'transpose' and isinstance(a[0], Array):
                return a[0].T
            if n in ('result_type', 'promote_types'):
                return np.dtype(np.float32)
            return Opaque()
        return call


class Name:
    """ symbolic name of a column """
    def __init__(self, e): self.e = e
    def __eq__(self, o): return dse.SymBool(self.e == o.e) if isinstance(o, Name) else False
    def __ne__(self, o): return dse.SymBool(self.e != o.e) if isinstance(o, Name) else True
    def __lt__(self, o): return dse.SymBool(self.e < o.e)
    def __gt__(self, o): return dse.SymBool(self.e > o.e)
    def __hash__(self): return 0


class Index(list):
    """ columns of a pandas data frame """
    def tolist(self): return list(self)
    to_list = tolist
    def equals(self, o): return list(self) == list(o)
    @property
    def size(self): return len(self)
    @property
    def values(self): return list(self)
    __hash__ = None


class Frame:
    def __init__(self, n, names, pandas):
        self.columns = (Index if pandas else list)(names)
        self.shape = (n, len(names))
        self._pandas = pandas
    def to_numpy(self, *a, **k): return Array(self.shape)
    @property
    def values(self):
        if not self._pandas:
            raise AttributeError('values')
        return self.to_numpy()


class Series:
    name = 'y'
    def __init__(self, shape): self.shape = shape
    def to_numpy(self, *a, **k): return Array(self.shape)
    values = property(to_numpy)


class Names(dict):
    """ trace, or state """
    def __missing__(self, k): return Opaque()


@contextlib.contextmanager
def stubs():
    import builtins
    subst = {id(mcmcstep.init): lambda *a, **k: Names(), id(mcmcloop.run_mcmc): lambda *a, **k: (Names(), Names(), Names()),
             id(mcmcloop.evaluate_trace): lambda *a, **k: Opaque(),
             id(prepcovars.quantilized_splits_from_matrix): lambda *a, **k: (Opaque(), Opaque()),
             id(prepcovars.uniform_splits_from_matrix): lambda *a, **k: (Opaque(), Opaque()),
             id(prepcovars.bin_predictors): lambda *a, **k: Opaque()}
    conv = {int: lambda x=0, *a: x if isinstance(x, dse.SymInt) else int(x, *a),
            len: lambda x: x.shape[0] if isinstance(x, (Array, Frame, Series)) else len(x)}
    with contextlib.ExitStack() as st:
        for m in (BART, mcmcstep, mcmcloop, prepcovars):
            for n, v in list(vars(m).items()):
                if id(v) in subst:
                    st.enter_context(mock.patch.object(m, n, subst[id(v)]))
        for m in (BART, jaxext):
            for n, v in list(vars(m).items()):
                if v is jnp:
                    st.enter_context(mock.patch.object(m, n, Module(jnp)))
        st.enter_context(mock.patch.multiple(BART, create=True, len=conv[len]))
        yield


KW = dict(lamda=1., ntree=1, ndpost=1, nskip=0, numcut=3, maxdepth=2, printevery=1000)


def predictors(kind, p, n, names=None):
    if kind == 'array':
        return Array((p, n))
    return Frame(n, names, kind == 'pandas')


def real_predictors(kind, p, n, names=None):
    x = np.arange(p * n, dtype=np.float32).reshape(p, n) % 7
    if kind == 'array':
        return x
    return pd.DataFrame(x.T, columns=names) if kind == 'pandas' else pl.DataFrame(x.T, schema=names)


def real(fit, later=None):
    """ outcome with the real code: 'refused', or the exception """
    kind, p, n, names, ykind, ny = fit
    y = np.arange(ny, dtype=np.float32)
    y = dict(array=lambda: y, pandas=lambda: pd.Series(y, name='y'), polars=lambda: pl.Series('y', y))[ykind]()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            b = gbart(real_predictors(kind, p, n, names), y, **KW)
            if later:
                kind, p, m, names = later
                out = b.predict(real_predictors(kind, p, m, names))
                if out.shape != (1, m):
                    return f'predictions of shape {out.shape} for {m} points'
    except Exception as e:
        return e
    return None


def shapes(e):
    return [z3.And(v >= 1, v <= 40) for v in e]


def in_standin(e):
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    # raised in the stand-ins, or because a stand-in does not have a method, or on passing one to the real jax
    f = tb.tb_frame.f_code.co_filename
    return isinstance(e, StandIn) or f.startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) or os.path.dirname(jax.__file__) in f


def harness(k, name, variables, base, call, want, concrete):
    """ call(): the real code on stand-ins; want: formula, accepted; concrete(model): what to run for real """
    ex = dse.Explorer(base, max_paths=2000)
    acc, cover, n = [], [], 0
    for path, res in ex.run(call):
        pc = z3.And(*path) if path else z3.BoolVal(True)
        if isinstance(res, Exception) and in_standin(res):
            k.undecide(name, f'the stand-ins do not support the code: {type(res).__name__}: {str(res)[:200]}')
            return
        cover.append(pc)
        if isinstance(res, Exception) and os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exception(res)
        if not isinstance(res, Exception):
            acc.append(pc)
    acc = z3.Or(*acc) if acc else z3.BoolVal(False)
    k.extra['paths'] = k.extra.get('paths', 0) + len(cover)

    def replay(n, model):
        goal = z3.And(acc, z3.Not(want)) if n == 'mismatch refused' else z3.And(want, z3.Not(acc))
        s = z3.Solver()
        s.add(*base, goal)
        # the code that is stubbed may refuse as well: look at models in different regions
        for extra in [[]] + [[a > b] for a in variables for b in variables if not a.eq(b)][:6] + [[v == 1] for v in variables] + [[v == 2] for v in variables]:
            if s.check(*extra) != z3.sat:
                continue
            m = s.model()
            vals = {str(v): m.eval(v, model_completion=True).as_long() for v in variables}
            got = real(*concrete(lambda v: vals[str(v)] if z3.is_expr(v) else v))
            ok = n != 'mismatch refused'
            if ok == (got is None):
                continue
            return (f'a mismatch is not refused' if got is None else f'refused with {type(got).__name__}: {str(got)[:200]}' if isinstance(got, Exception) else got), vals
        return 'undecided' if n == 'mismatch refused' else None
    k.prove(name, base, [('mismatch refused', z3.Implies(acc, want)), ('match accepted', z3.Implies(want, acc)), ('paths cover', z3.Or(*cover))],
            f'{name}, {len(cover)} paths', replay=replay)
    # the real code at one point on each side
    for side in (want, z3.Not(want)):
        s = z3.Solver()
        s.add(*base, *[v <= 6 for v in variables], side)
        if s.check() == z3.sat:
            m = s.model()
            vals = {str(v): m.eval(v, model_completion=True).as_long() for v in variables}
            got = real(*concrete(lambda v: vals[str(v)] if z3.is_expr(v) else v))
            if (got is None) != (side is want):
                what = 'a mismatch is not refused' if got is None else f'refused with {type(got).__name__}: {str(got)[:200]}' if isinstance(got, Exception) else got
                k.violation(f'{name}: {what}', vals)
                return
            k.samples += 1
    k.functions.update(['BART.py:gbart.__init__', 'BART.py:gbart.predict'])


def main(k):
    k.assumptions += ['arrays are stand-ins with a symbolic shape; the preparation of the predictors and the sampler are stubbed, as they do not decide what is refused']
    S = dse.SymInt
    p, n, ny, q, m = z3.Ints('p n ny q m')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # response and predictors of different length
        for kind in ('array', 'pandas', 'polars'):
            for ykind in ('array', 'pandas'):
                names = None if kind == 'array' else ['a', 'b']
                vs = [n, ny] + ([p] if names is None else [])

                def call():
                    with stubs():
                        x = predictors(kind, S(p), S(n), names)
                        gbart(x, Array((S(ny),)) if ykind == 'array' else Series((S(ny),)), **KW)
                harness(k, f'length of {kind} predictors and {ykind} response', vs, shapes(vs), call, n == ny,
                        lambda f: [(kind, 2 if names else f(p), f(n), names, ykind, f(ny))])
        # number of predictors
        vs = [p, n, q, m]

        def call():
            with stubs():
                b = gbart(Array((S(p), S(n))), Array((S(n),)), **KW)
                b.predict(Array((S(q), S(m))))
        harness(k, 'number of predictors of arrays', vs, shapes(vs), call, p == q,
                lambda f: [('array', f(p), f(n), None, 'array', f(n)), ('array', f(q), f(m), None)])

        def call():
            with stubs():
                gbart(Array((S(p), S(n))), Array((S(n),)), x_test=Array((S(q), S(m))), **KW)
        harness(k, 'number of predictors of arrays, at construction', vs, shapes(vs), call, p == q,
                lambda f: [('array', f(p), f(n), None, 'array', f(n)), ('array', f(q), f(m), None)])
        # names of the columns
        for kind in ('pandas', 'polars'):
            for c1 in (1, 2, 3):
                for c2 in (1, 2, 3):
                    A, B = z3.Ints(' '.join(f'a{i}' for i in range(c1))), z3.Ints(' '.join(f'b{i}' for i in range(c2)))
                    vs = [n, m, *A, *B]
                    base = shapes(vs) + [z3.Distinct(*x) for x in (A, B) if len(x) > 1]

                    def call():
                        with stubs():
                            b = gbart(Frame(S(n), list(map(Name, A)), kind == 'pandas'), Array((S(n),)), **KW)
                            b.predict(Frame(S(m), list(map(Name, B)), kind == 'pandas'))
                    want = z3.And(*[a == b for a, b in zip(A, B)]) if c1 == c2 else z3.BoolVal(False)
                    harness(k, f'columns of {kind} data frames, {c1} and {c2}', vs, base, call, want,
                            lambda f: [(kind, c1, f(n), [f'c{f(a):02d}' for a in A], 'array', f(n)), (kind, c2, f(m), [f'c{f(b):02d}' for b in B])])
        # data frame and array
        for k1, k2 in (('array', 'pandas'), ('pandas', 'array'), ('array', 'polars'), ('polars', 'array')):
            names = ['a', 'b']
            vs = [n, m, q]

            def call():
                with stubs():
                    b = gbart(predictors(k1, S(q) if k1 == 'array' else 2, S(n), names), Array((S(n),)), **KW)
                    b.predict(predictors(k2, S(q) if k2 == 'array' else 2, S(m), names))
            harness(k, f'trained on {k1}, predict on {k2}', vs, shapes(vs), call, z3.BoolVal(False),
                    lambda f: [(k1, f(q) if k1 == 'array' else 2, f(n), names, 'array', f(n)), (k2, f(q) if k2 == 'array' else 2, f(m), names)])
