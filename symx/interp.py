"""
Symbolic interpreter of jaxprs.

The jaxpr of a bartz function is obtained by tracing the real function, so the
encoding is always regenerated from the current source. Each equation is
executed on arrays of cells (see cells.py); equations with only concrete inputs
are executed by JAX itself.
"""
import itertools
import os

import numpy as np
import z3

import jax
import jax.numpy as jnp
from jax import core as jcore
from jax._src import source_info_util

from . import cells as C
from .cells import CTX, DT, Unsupported

CORE = jcore


# ------------------------------------------------------------------- arrays


class SA:
    """Symbolic array: dtype (DT) and object array of cells."""
    __slots__ = ('dt', 'c')

    def __init__(self, dt, c):
        self.dt = DT(dt) if not isinstance(dt, (DT, KeyDT)) else dt
        self.c = c

    @property
    def shape(self):
        return self.c.shape

    @property
    def ndim(self):
        return self.c.ndim

    @property
    def size(self):
        return self.c.size

    def __repr__(self):
        return f'SA({getattr(self.dt, "np", "key")}, {self.c.tolist()})'

    def __getitem__(self, i):
        r = self.c[i]
        if isinstance(r, np.ndarray):
            return SA(self.dt, r)
        return SA(self.dt, oarr(r))


class KeyDT:
    kind = 'k'
    np = None
    w = 0

    def __init__(self, aval_dtype):
        self.key_dtype = aval_dtype


_KDT = {}


def getdt(dtype):
    if jax.dtypes.issubdtype(dtype, jax.dtypes.prng_key):
        if dtype not in _KDT:
            _KDT[dtype] = KeyDT(dtype)
        return _KDT[dtype]
    return DT(dtype)


def oarr(x):
    a = np.empty((), object)
    a[()] = x
    return a


def oempty(shape):
    return np.empty(shape, object)


def ofull(shape, x):
    a = np.empty(shape, object)
    for i in np.ndindex(*shape):
        a[i] = x
    return a


def cell_of(x, dt):
    """ numpy scalar to concrete cell """
    k = dt.kind
    if k == 'b':
        return bool(x)
    if k in 'iu':
        return int(x)
    if k == 'f':
        return dt.np.type(x)
    raise Unsupported(f'cell of kind {k}')


def to_cells(x, dt=None):
    """ any array-like to object array of cells """
    if isinstance(x, SA):
        return x.c
    if is_key_array(x):
        return conc_key_cells(x)
    a = np.asarray(x)
    dt = dt or DT(a.dtype)
    out = np.empty(a.shape, object)
    flat = a.reshape(-1)
    o = out.reshape(-1)
    for i in range(flat.size):
        o[i] = cell_of(flat[i], dt)
    return o.reshape(a.shape)


def is_key_array(x):
    return isinstance(x, jax.Array) and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key)


def dt_of(x):
    if isinstance(x, SA):
        return x.dt
    if is_key_array(x):
        return getdt(x.dtype)
    return DT(np.asarray(x).dtype)


def is_conc(x):
    return not isinstance(x, SA)


def simplify_array(x):
    """ make an array of concrete cells a numpy array """
    if isinstance(x, SA) and x.dt.kind != 'k':
        f = x.c.reshape(-1)
        for v in f:
            if not C.concrete(v):
                return x
        a = np.empty(x.c.shape, x.dt.np)
        af = a.reshape(-1)
        for i, v in enumerate(f):
            af[i] = v
        return af.reshape(x.c.shape)
    return x


# --------------------------------------------------------------------- keys


class Key:
    """Opaque random key term."""
    symbolic_key = True
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    def ite(self, c, other):
        if isinstance(other, Key) and other.term == self.term:
            return self
        raise Unsupported('selection between random keys with a symbolic condition')

    def __repr__(self):
        return f'Key{self.term}'


def root_key(name='root'):
    """ symbolic scalar key array """
    return SA(getdt(jax.random.key(0).dtype), oarr(Key(('root', name))))


def conc_key_cells(x):
    data = np.asarray(jax.random.key_data(x))
    out = oempty(x.shape)
    for i in np.ndindex(*x.shape):
        out[i] = Key(('data', tuple(int(v) for v in data[i])))
    return out


def real_key(term, roots):
    """ evaluate a key term with the real jax.random """
    k = term[0]
    if k == 'root':
        return roots[term[1]]
    if k == 'data':
        return jax.random.wrap_key_data(jnp.array(term[1], jnp.uint32))
    if k == 'split':
        p = real_key(term[1], roots)
        ks = jax.random.split(p, tuple(term[2]))
        return ks[tuple(term[3])]
    if k == 'fold':
        return jax.random.fold_in(real_key(term[1], roots), term[2])
    raise Unsupported(k)


# --------------------------------------------------------------- interpreter

RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


FRAMES = {}
_SRC_ROOT = os.path.realpath(os.environ.get('BARTZ_SRC', '/repo/src'))


def note_frames(si):
    tb = si.traceback
    k = id(tb)
    if k in FRAMES:
        return
    names = []
    try:
        for fr in source_info_util.user_frames(si):
            fn = fr.file_name
            if '/bartz/' in fn and fn.startswith(_SRC_ROOT):
                names.append(f'{os.path.basename(fn)}:{fr.function_name}')
    except Exception:
        pass
    FRAMES[k] = (tb, tuple(names))
    CTX.functions.update(names)


CTX.functions = set()


class Interp:

    def __init__(self, unwind=64):
        self.unwind = unwind

    def run(self, closed, *args):
        return self.eval(closed.jaxpr, closed.consts, args)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                return np.asarray(v.val, v.aval.dtype) if not isinstance(v.val, np.ndarray) else v.val
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c if isinstance(c, SA) or is_key_array(c) else np.asarray(c)
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        last = {}
        for i, eqn in enumerate(jaxpr.eqns):
            for v in eqn.invars:
                if not isinstance(v, jcore.Literal):
                    last[v] = i
        outset = {v for v in jaxpr.outvars if not isinstance(v, jcore.Literal)}
        for i, eqn in enumerate(jaxpr.eqns):
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                if v.__class__.__name__ == 'DropVar':
                    continue
                if tuple(o.shape) != tuple(v.aval.shape):
                    raise Unsupported(f'shape mismatch in {eqn.primitive}: {o.shape} vs {v.aval.shape}')
                if isinstance(o, SA):
                    o = simplify_array(o)
                env[v] = o
            for v in eqn.invars:
                if not isinstance(v, jcore.Literal) and last.get(v) == i and v not in outset:
                    env.pop(v, None)
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        CTX.prims[name] = CTX.prims.get(name, 0) + 1
        note_frames(eqn.source_info)
        ctrl = CONTROL.get(name)
        if ctrl is not None:
            return ctrl(self, eqn, ins)
        if all(is_conc(x) for x in ins) and name not in ALWAYS:
            return self.concrete_eqn(eqn, ins)
        f = RULES.get(name)
        if f is None:
            raise Unsupported(f'primitive {name}')
        outs = f(eqn, ins)
        if isinstance(outs, (SA, np.ndarray)):
            outs = [outs]
        return outs

    def concrete_eqn(self, eqn, ins):
        subfuns, params = eqn.primitive.get_bind_params(eqn.params)
        with jax.default_device(jax.devices('cpu')[0]):
            outs = eqn.primitive.bind(*subfuns, *[x if is_key_array(x) else jnp.asarray(x) for x in ins], **params)
        if not eqn.primitive.multiple_results:
            outs = [outs]
        return [o if is_key_array(o) else np.asarray(o) for o in outs]


ALWAYS = {'random_split', 'random_wrap', 'random_unwrap', 'random_fold_in', 'random_bits', 'random_seed',
          'symrand', 'debug_callback', 'symcall', 'pure_callback'}
CONTROL = {}


def control(*names):
    def deco(f):
        for n in names:
            CONTROL[n] = f
        return f
    return deco


@control('pjit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'remat2', 'custom_jvp_call', 'custom_vjp_call',
         'custom_vjp_call_jaxpr', 'custom_jvp_call_jaxpr', 'xla_call', 'core_closed_call', 'remat_call')
def _call(I, eqn, ins):
    p = eqn.params
    j = p.get('jaxpr') or p.get('call_jaxpr') or p.get('fun_jaxpr')
    if isinstance(j, jcore.ClosedJaxpr):
        return I.eval(j.jaxpr, j.consts, ins)
    return I.eval(j, (), ins)


def index_leading(x, i):
    if isinstance(x, SA):
        r = x.c[i]
        if not isinstance(r, np.ndarray):
            r = oarr(r)
        return SA(x.dt, r)
    return x[i]


def stack_leading(xs, aval):
    if not xs:
        return empty_of(aval)
    if all(is_conc(x) and not is_key_array(x) for x in xs):
        return np.stack([np.asarray(x) for x in xs])
    cs = [to_cells(x) for x in xs]
    out = oempty((len(cs),) + cs[0].shape)
    for i, c in enumerate(cs):
        out[i] = c if c.ndim else c[()]
    return SA(dt_of(xs[0]), out)


def empty_of(aval):
    if jax.dtypes.issubdtype(aval.dtype, jax.dtypes.prng_key):
        return SA(getdt(aval.dtype), oempty(aval.shape))
    return np.zeros(aval.shape, aval.dtype)


@control('scan')
def _scan(I, eqn, ins):
    p = eqn.params
    nc, nk, L = p['num_consts'], p['num_carry'], p['length']
    consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
    j = p['jaxpr']
    if all(is_conc(x) for x in ins) and not has_random(j.jaxpr):
        return I.concrete_eqn(eqn, ins)
    ys = []
    order = range(L - 1, -1, -1) if p['reverse'] else range(L)
    for i in order:
        outs = I.eval(j.jaxpr, j.consts, [*consts, *carry, *(index_leading(x, i) for x in xs)])
        carry = outs[:nk]
        ys.append(outs[nk:])
    if p['reverse']:
        ys = ys[::-1]
    nout = len(eqn.outvars) - nk
    stacked = [stack_leading([y[k] for y in ys], eqn.outvars[nk + k].aval) for k in range(nout)]
    return [*carry, *stacked]


_HR = {}


def has_random(jaxpr):
    k = id(jaxpr)
    if k not in _HR:
        r = False
        for e in jaxpr.eqns:
            if e.primitive.name in ALWAYS:
                r = True
                break
            for v in e.params.values():
                for s in (v if isinstance(v, (tuple, list)) else (v,)):
                    if isinstance(s, jcore.ClosedJaxpr):
                        s = s.jaxpr
                    if isinstance(s, jcore.Jaxpr) and has_random(s):
                        r = True
        _HR[k] = (jaxpr, r)
    return _HR[k][1]


def ite_arrays(c, a, b):
    """ c: scalar bool cell """
    if C.isb(c):
        return a if c else b
    dt = dt_of(a)
    ca, cb = to_cells(a), to_cells(b)
    out = oempty(ca.shape)
    for i in np.ndindex(*ca.shape):
        out[i] = C.c_ite(c, ca[i], cb[i], dt)
    return simplify_array(SA(dt, out))


@control('while')
def _while(I, eqn, ins):
    p = eqn.params
    cn, bn = p['cond_nconsts'], p['body_nconsts']
    cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
    if all(is_conc(x) for x in ins) and not has_random(p['cond_jaxpr'].jaxpr) and not has_random(p['body_jaxpr'].jaxpr):
        return I.concrete_eqn(eqn, ins)
    active = True
    for it in range(I.unwind + 1):
        c, = I.eval(p['cond_jaxpr'].jaxpr, p['cond_jaxpr'].consts, [*cc, *carry])
        if c.shape != ():
            raise Unsupported('batched while predicate')
        c = to_cells(c)[()]
        active = C.And(active, c)
        if active is False:
            return carry
        if it == I.unwind:
            break
        new = I.eval(p['body_jaxpr'].jaxpr, p['body_jaxpr'].consts, [*bc, *carry])
        carry = [ite_arrays(active, n, o) for n, o in zip(new, carry)]
    CTX.unwind.append(C.Not(active))
    return carry


CTX.guards = []


@control('cond')
def _cond(I, eqn, ins):
    p = eqn.params
    br = p['branches']
    idx, ops = ins[0], ins[1:]
    dt = dt_of(idx)
    ic = to_cells(idx)[()]
    if dt.kind == 'b':
        ic = C.b2i(ic, DT('int32'))
        dt = DT('int32')
    if not isinstance(ic, C.IV):
        b = br[min(max(ic, 0), len(br) - 1)]
        return I.eval(b.jaxpr, b.consts, ops)
    outs = []
    for k, b in enumerate(br):
        # effects of a branch happen only under its condition
        g = C.i_cmp('le' if k == 0 else 'ge' if k == len(br) - 1 else 'eq', ic, k, dt)
        CTX.guards = CTX.guards + [g]
        outs.append(I.eval(b.jaxpr, b.consts, ops))
        CTX.guards = CTX.guards[:-1]
    res = list(outs[-1])
    for k in range(len(br) - 2, -1, -1):
        c = C.i_cmp('le', ic, k, dt)
        res = [ite_arrays(c, a, b) for a, b in zip(outs[k], res)]
    return res


# ----------------------------------------------------------------- elementwise


def bcast_cells(ins):
    shape = np.broadcast_shapes(*[x.shape for x in ins])
    return shape, [np.broadcast_to(to_cells(x), shape) for x in ins]


def map1(f, x, dt_out):
    c = to_cells(x)
    out = oempty(c.shape)
    for i in np.ndindex(*c.shape):
        out[i] = f(c[i])
    return SA(dt_out, out)


def map2(f, a, b, dt_out):
    shape, (ca, cb) = bcast_cells([a, b])
    out = oempty(shape)
    for i in np.ndindex(*shape):
        out[i] = f(ca[i], cb[i])
    return SA(dt_out, out)


def _bin(fi, ff, fb=None):
    def r(eqn, ins):
        a, b = ins
        dt = dt_of(a)
        if dt.kind == 'b':
            if fb is None:
                raise Unsupported(f'{eqn.primitive} on bool')
            return map2(fb, a, b, dt)
        f = fi if dt.kind in 'iu' else ff
        return map2(lambda x, y: f(x, y, dt), a, b, dt)
    return r


def _no(*a):
    raise Unsupported('operation not available for this type')


RULES['add'] = RULES['add_any'] = _bin(C.i_add, C.f_add, C.Or)
RULES['sub'] = _bin(C.i_sub, C.f_sub)
RULES['mul'] = _bin(C.i_mul, C.f_mul, C.And)
RULES['div'] = _bin(C.i_div, C.f_div)
RULES['rem'] = _bin(C.i_rem, C.f_rem)
RULES['max'] = _bin(C.i_max, C.f_max, C.Or)
RULES['min'] = _bin(C.i_min, C.f_min, C.And)
RULES['and'] = _bin(C.i_and, _no, C.And)
RULES['or'] = _bin(C.i_or, _no, C.Or)
RULES['xor'] = _bin(C.i_xor, _no, C.Xor)
RULES['shift_left'] = _bin(lambda a, b, dt: C.i_shift('l', a, b, dt), _no)
RULES['shift_right_arithmetic'] = _bin(lambda a, b, dt: C.i_shift('ra', a, b, dt), _no)
RULES['shift_right_logical'] = _bin(lambda a, b, dt: C.i_shift('rl', a, b, dt), _no)


def cmp_cells(op, a, b, dt):
    if dt.kind == 'b':
        a, b = C.b2i(a, DT('uint8')), C.b2i(b, DT('uint8'))
        return C.i_cmp(op, a, b, DT('uint8'))
    if dt.kind in 'iu':
        return C.i_cmp(op, a, b, dt)
    return C.f_cmp(op, a, b, dt)


def _cmp(op):
    def r(eqn, ins):
        dt = dt_of(ins[0])
        if dt.kind == 'b' and op in ('eq', 'ne'):
            f = C.Iff if op == 'eq' else C.Xor
            return map2(f, ins[0], ins[1], DT(bool))
        return map2(lambda x, y: cmp_cells(op, x, y, dt), ins[0], ins[1], DT(bool))
    return r


for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    RULES[_n] = _cmp(_n)
RULES['eq_to'] = _cmp('eq')


def _total(op):
    # total order on floats used by sort: -0 < 0? XLA's lt_to orders -NaN < -inf < ... < -0 < 0 < ... < NaN;
    # NaN excluded by the preconditions; -0/0 are distinguished in fp mode
    def f(x, y, dt):
        if dt.kind != 'f':
            return cmp_cells(op, x, y, dt)
        r = C.f_cmp(op, x, y, dt)
        if CTX.float_mode == 'fp':
            fx, fy = C.to_fp(x, dt), C.to_fp(y, dt)
            bothzero = z3.And(z3.fpIsZero(fx), z3.fpIsZero(fy))
            nx, ny = z3.fpIsNegative(fx), z3.fpIsNegative(fy)
            z = z3.And(nx, z3.Not(ny)) if op == 'lt' else z3.Implies(ny, nx)
            r = z3.simplify(z3.If(bothzero, z, C.zb(r)))
            r = True if z3.is_true(r) else False if z3.is_false(r) else r
        return r

    def rr(eqn, ins):
        dt = dt_of(ins[0])
        return map2(lambda x, y: f(x, y, dt), ins[0], ins[1], DT(bool))
    return rr


RULES['lt_to'] = _total('lt')
RULES['le_to'] = _total('le')


@rule('not')
def _not(eqn, ins):
    dt = dt_of(ins[0])
    return map1(C.Not if dt.kind == 'b' else lambda x: C.i_not(x, dt), ins[0], dt)


@rule('neg')
def _neg(eqn, ins):
    dt = dt_of(ins[0])
    return map1(lambda x: C.i_neg(x, dt) if dt.kind in 'iu' else C.f_neg(x, dt), ins[0], dt)


@rule('sign')
def _sign(eqn, ins):
    dt = dt_of(ins[0])
    if dt.kind in 'iu':
        def f(x):
            return C.i_ite(C.i_cmp('gt', x, 0, dt), 1, C.i_ite(C.i_cmp('lt', x, 0, dt), -1 if dt.signed else 0, 0, dt), dt)
    else:
        f = lambda x: C.f_sign(x, dt)
    return map1(f, ins[0], dt)


@rule('abs')
def _abs(eqn, ins):
    dt = dt_of(ins[0])
    if dt.kind in 'iu':
        return map1(lambda x: C.i_ite(C.i_cmp('lt', x, 0, dt), C.i_neg(x, dt), x, dt), ins[0], dt)
    return map1(lambda x: C.f_abs(x, dt), ins[0], dt)


def _f1(f):
    def r(eqn, ins):
        dt = dt_of(ins[0])
        if dt.kind != 'f':
            raise Unsupported(f'{eqn.primitive} on {dt.kind}')
        return map1(lambda x: f(x, dt), ins[0], dt)
    return r


RULES['sqrt'] = _f1(C.f_sqrt)
RULES['rsqrt'] = _f1(C.f_rsqrt)
RULES['log'] = _f1(C.f_log)
RULES['log1p'] = _f1(C.f_log1p)
RULES['exp'] = _f1(C.f_exp)
RULES['floor'] = _f1(C.f_floor)
RULES['ceil'] = _f1(C.f_ceil)


def _ufn(name, npf):
    RULES[name] = _f1(lambda x, dt: C.f_ufun(name, npf, x, dt))


from scipy import special as _sp  # noqa: E402
for _n, _f in dict(sin=np.sin, cos=np.cos, tan=np.tan, tanh=np.tanh, erf=_sp.erf, erf_inv=_sp.erfinv, erfc=_sp.erfc,
                   lgamma=_sp.gammaln, digamma=_sp.digamma, exp2=np.exp2, cbrt=np.cbrt, logistic=_sp.expit,
                   atan=np.arctan, asin=np.arcsin, acos=np.arccos, sinh=np.sinh, cosh=np.cosh).items():
    _ufn(_n, _f)


@rule('expm1')
def _expm1(eqn, ins):
    dt = dt_of(ins[0])
    return map1(lambda x: C.f_sub(C.f_exp(x, dt), dt.np.type(1), dt), ins[0], dt)


@rule('square')
def _square(eqn, ins):
    dt = dt_of(ins[0])
    m = C.i_mul if dt.kind in 'iu' else C.f_mul
    return map1(lambda x: m(x, x, dt), ins[0], dt)


@rule('integer_pow')
def _ipow(eqn, ins):
    dt = dt_of(ins[0])
    n = eqn.params['y']
    if dt.kind == 'f':
        return map1(lambda x: C.f_ipow(x, n, dt), ins[0], dt)

    def f(x):
        r = 1
        for _ in range(n):
            r = C.i_mul(r, x, dt)
        return r
    return map1(f, ins[0], dt)


@rule('pow')
def _pow(eqn, ins):
    dt = dt_of(ins[0])

    def conc_exp(x, n):
        if float(n).is_integer() and abs(n) <= 8:
            return C.f_ipow(x, int(n), dt)
        if n == .5:
            return C.f_sqrt(x, dt)
        raise Unsupported('pow')

    def f(x, y):
        if C.isconcf(x) and C.isconcf(y):
            return dt.np.type(x ** y)
        if isinstance(y, C.UN) and all(C.isconcf(v) for _, v in y.alts):
            return C.norm_union([(g, f(x, v)) for g, v in y.alts], dt)
        if not C.isconcf(y) if not isinstance(y, (int, C.IV)) else False:
            return C.RV(C.uf('POW', 2)(C.to_real(x, dt), C.to_real(y, dt)))
        if isinstance(y, C.IV):
            raise Unsupported('pow with symbolic integer exponent')
        return conc_exp(x, y)
    return map2(f, ins[0], ins[1], dt)


@rule('is_finite')
def _isfin(eqn, ins):
    return map1(C.f_isfinite, ins[0], DT(bool))


@rule('round')
def _round(eqn, ins):
    dt = dt_of(ins[0])
    even = int(eqn.params['rounding_method']) == 1
    f = C.f_round_even if even else C.f_round_away
    return map1(lambda x: f(x, dt), ins[0], dt)


@rule('nextafter')
def _nextafter(eqn, ins):
    raise Unsupported('nextafter')


@rule('population_count', 'clz')
def _bits(eqn, ins):
    dt = dt_of(ins[0])
    name = eqn.primitive.name

    def f(x):
        if name == 'population_count':
            r = 0
            for k in range(dt.w):
                b = C.i_and(C.i_shift('rl', x, k, dt), 1, dt)
                r = C.i_add(r, b, dt)
            return r
        r = dt.w
        for k in range(dt.w):
            bit = C.i_cmp('ne', C.i_and(C.i_shift('rl', x, k, dt), 1, dt), 0, dt)
            r = C.i_ite(bit, dt.w - 1 - k, r, dt)
        return r
    return map1(f, ins[0], dt)


@rule('select_n')
def _select(eqn, ins):
    which, cases = ins[0], ins[1:]
    dt = next((dt_of(c) for c in cases if isinstance(c, SA)), dt_of(cases[0]))
    wdt = dt_of(which)
    shape = np.broadcast_shapes(*[c.shape for c in cases], which.shape)
    cw = np.broadcast_to(to_cells(which), shape)
    cc = [np.broadcast_to(to_cells(c), shape) for c in cases]
    out = oempty(shape)
    for i in np.ndindex(*shape):
        w = cw[i]
        if wdt.kind == 'b':
            out[i] = cc[0][i] if len(cc) == 1 else C.c_ite(w, cc[1][i], cc[0][i], dt)
        else:
            r = cc[-1][i]
            for k in range(len(cc) - 2, -1, -1):
                r = C.c_ite(C.i_cmp('le', w, k, wdt), cc[k][i], r, dt)
            out[i] = r
    return SA(dt, out)


@rule('clamp')
def _clamp(eqn, ins):
    lo, x, hi = ins
    dt = dt_of(x)
    mn, mx = (C.i_min, C.i_max) if dt.kind in 'iu' else (C.f_min, C.f_max)
    shape = x.shape
    l, h = np.broadcast_to(to_cells(lo), shape), np.broadcast_to(to_cells(hi), shape)
    cx = to_cells(x)
    out = oempty(shape)
    for i in np.ndindex(*shape):
        out[i] = mn(mx(cx[i], l[i], dt), h[i], dt)
    return SA(dt, out)


@rule('convert_element_type')
def _convert(eqn, ins):
    src, dst = dt_of(ins[0]), DT(eqn.params['new_dtype'])
    return map1(lambda x: C.convert(x, src, dst), ins[0], dst)


@rule('reduce_precision')
def _redprec(eqn, ins):
    if CTX.float_mode == 'fp':
        raise Unsupported('reduce_precision')
    return ins[0]


@rule('bitcast_convert_type')
def _bitcast(eqn, ins):
    src, dst = dt_of(ins[0]), DT(eqn.params['new_dtype'])

    def f(x):
        if src.kind in 'iu' and dst.kind in 'iu' and src.w == dst.w:
            return C.i_convert(x, src, dst)
        if src.kind == 'b' and dst.kind in 'iu':
            return C.b2i(x, dst)
        if src.kind in 'iu' and dst.kind == 'b':
            return C.i_cmp('ne', x, 0, src)
        if CTX.float_mode == 'fp' and src.kind == 'f' and dst.kind in 'iu' and src.w == dst.w:
            return C.IV(z3.fpToIEEEBV(C.to_fp(x, src)), dst.min, dst.max)
        raise Unsupported(f'bitcast {src.np} -> {dst.np}')
    return map1(f, ins[0], dst)


@rule('copy', 'copy_p', 'device_put', 'stop_gradient', 'optimization_barrier', 'sharding_constraint', 'mesh_cast')
def _ident(eqn, ins):
    return list(ins)


# ------------------------------------------------------------------- structure


def _wrap(x, c):
    return SA(dt_of(x), c)


@rule('reshape')
def _reshape(eqn, ins):
    return _wrap(ins[0], to_cells(ins[0]).reshape(eqn.params['new_sizes']))


@rule('broadcast_in_dim')
def _bid(eqn, ins):
    x = ins[0]
    shape, bd = eqn.params['shape'], eqn.params['broadcast_dimensions']
    c = to_cells(x)
    tmp = [1] * len(shape)
    for k, d in enumerate(bd):
        tmp[d] = c.shape[k]
    return _wrap(x, np.array(np.broadcast_to(c.reshape(tmp), shape)) if True else None)


@rule('transpose')
def _transpose(eqn, ins):
    return _wrap(ins[0], to_cells(ins[0]).transpose(eqn.params['permutation']))


@rule('squeeze')
def _squeeze(eqn, ins):
    c = to_cells(ins[0])
    dims = {d % c.ndim for d in eqn.params['dimensions']}
    return _wrap(ins[0], c.reshape([s for k, s in enumerate(c.shape) if k not in dims]))


@rule('expand_dims')
def _expand(eqn, ins):
    return _wrap(ins[0], np.expand_dims(to_cells(ins[0]), eqn.params['dimensions']))


@rule('rev')
def _rev(eqn, ins):
    return _wrap(ins[0], np.flip(to_cells(ins[0]), eqn.params['dimensions']))


@rule('concatenate')
def _concat(eqn, ins):
    dt = dt_of(ins[0])
    return SA(dt, np.concatenate([to_cells(x) for x in ins], axis=eqn.params['dimension']))


@rule('pad')
def _pad(eqn, ins):
    x, pv = ins
    dt = dt_of(x)
    c, pc = to_cells(x), to_cells(pv)[()]
    cfg = eqn.params['padding_config']
    shape = tuple(lo + hi + s + max(0, s - 1) * it for s, (lo, hi, it) in zip(c.shape, cfg))
    out = ofull(shape, pc)
    for i in np.ndindex(*c.shape):
        o = tuple(lo + k * (it + 1) for k, (lo, hi, it) in zip(i, cfg))
        if all(0 <= v < s for v, s in zip(o, shape)):
            out[o] = c[i]
    return SA(dt, out)


@rule('slice')
def _slice(eqn, ins):
    p = eqn.params
    st = p['strides'] or (1,) * len(p['start_indices'])
    sl = tuple(slice(a, b, s) for a, b, s in zip(p['start_indices'], p['limit_indices'], st))
    return _wrap(ins[0], to_cells(ins[0])[sl])


@rule('split')
def _split(eqn, ins):
    c = to_cells(ins[0])
    sizes, ax = eqn.params['sizes'], eqn.params['axis']
    idx = np.cumsum(sizes)[:-1]
    return [_wrap(ins[0], a) for a in np.split(c, idx, axis=ax)]


def same_cell(a, b):
    if a is b:
        return True
    if isinstance(a, C.IV) and isinstance(b, C.IV):
        return a.e.eq(b.e)
    if isinstance(a, C.RV) and isinstance(b, C.RV):
        return a.e.eq(b.e)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if C.isconcf(a) and C.isconcf(b):
        return type(a) is type(b) and (a == b and (a != 0 or np.signbit(a) == np.signbit(b)))
    if C.concrete(a) and C.concrete(b):
        return type(a) is type(b) and a == b
    return False


def mux(idx, idt, lo, hi, get, dt):
    """ get(idx) with idx clipped to [lo, hi]; get maps a python int to a cell """
    if not isinstance(idx, C.IV):
        return get(min(max(idx, lo), hi))
    a, b = max(lo, min(idx.lo, hi)), min(hi, max(idx.hi, lo))
    if b - a >= 8:
        # merge runs of equal elements
        runs = []
        for v in range(a, b + 1):
            x = get(v)
            if runs and same_cell(runs[-1][1], x):
                runs[-1][0] = v
            else:
                runs.append([v, x])
        if 2 * len(runs) <= b - a + 1:
            r = runs[-1][1]
            for v, x in runs[-2::-1]:
                r = C.c_ite(C.i_cmp('le', idx, v, idt), x, r, dt)
            return r
    r = get(b)
    for v in range(b - 1, a - 1, -1):
        x = get(v)
        op = 'eq' if v > lo else 'le'
        r = C.c_ite(C.i_cmp(op, idx, v, idt), x, r, dt)
    return r


@rule('dynamic_slice')
def _dslice(eqn, ins):
    x, starts = ins[0], ins[1:]
    sizes = eqn.params['slice_sizes']
    c = to_cells(x)
    dt = dt_of(x)
    for ax, (s, n) in enumerate(zip(starts, sizes)):
        sc, sdt = to_cells(s)[()], dt_of(s)
        dim = c.shape[ax]
        out = oempty(c.shape[:ax] + (n,) + c.shape[ax + 1:])
        for i in np.ndindex(*out.shape):
            get = lambda v, i=i: c[i[:ax] + (v + i[ax],) + i[ax + 1:]]
            out[i] = mux(sc, sdt, 0, dim - n, get, dt)
        c = out
    return SA(dt, c)


@rule('dynamic_update_slice')
def _dus(eqn, ins):
    x, u, starts = ins[0], ins[1], ins[2:]
    c, uc = to_cells(x), to_cells(u)
    dt = dt_of(x)
    out = c.copy()
    st = []
    for s, dim, n in zip(starts, c.shape, uc.shape):
        sc, sdt = to_cells(s)[()], dt_of(s)
        if isinstance(sc, C.IV):
            st.append((sc, sdt, max(0, min(sc.lo, dim - n)), max(0, min(sc.hi, dim - n)), dim - n))
        else:
            v = min(max(sc, 0), dim - n)
            st.append((v, sdt, v, v, dim - n))
    for comb in itertools.product(*[range(a, b + 1) for _, _, a, b, _ in st]):
        cond = True
        for v, (sc, sdt, a, b, top) in zip(comb, st):
            if isinstance(sc, C.IV):
                g = C.i_cmp('le', sc, v, sdt) if v == 0 else C.i_cmp('ge', sc, v, sdt) if v == top else C.i_cmp('eq', sc, v, sdt)
                if v == 0 and top == 0:
                    g = True
                cond = C.And(cond, g)
        for i in np.ndindex(*uc.shape):
            o = tuple(a + b for a, b in zip(comb, i))
            out[o] = C.c_ite(cond, uc[i], out[o], dt)
    return SA(dt, out)


@rule('iota')
def _iota(eqn, ins):
    raise Unsupported('symbolic iota')


def _mode(m):
    s = str(m)
    if 'CLIP' in s:
        return 'clip'
    if 'FILL' in s:
        return 'fill'
    return 'promise'


@rule('gather')
def _gather(eqn, ins):
    x, idx = ins
    p = eqn.params
    dn, ss, mode = p['dimension_numbers'], p['slice_sizes'], _mode(p['mode'])
    if getattr(dn, 'operand_batching_dims', ()):
        raise Unsupported('gather batching dims')
    c, ic = to_cells(x), to_cells(idx)
    dt, idt = dt_of(x), dt_of(idx)
    fill = p.get('fill_value')
    if fill is None and mode == 'fill':
        fill = {'b': True, 'i': dt.min if dt.kind == 'i' else None, 'u': dt.max if dt.kind == 'u' else None,
                'f': np.nan if dt.kind == 'f' else None}[dt.kind]
    if mode == 'fill':
        fill = cell_of(dt.np.type(fill), dt)
    batch_shape = ic.shape[:-1]
    off_op_dims = [d for d in range(c.ndim) if d not in dn.collapsed_slice_dims]
    off_sizes = [ss[d] for d in off_op_dims]
    out_ndim = len(batch_shape) + len(off_sizes)
    off_out = list(dn.offset_dims)
    batch_out = [d for d in range(out_ndim) if d not in off_out]
    shape = [0] * out_ndim
    for d, s in zip(off_out, off_sizes):
        shape[d] = s
    for d, s in zip(batch_out, batch_shape):
        shape[d] = s
    out = oempty(tuple(shape))
    sim = dn.start_index_map
    if out.size and c.size == 0:
        if mode != 'fill':
            raise Unsupported('gather from an empty array')
        for o in np.ndindex(*out.shape):
            out[o] = fill
        return SA(dt, out)
    for b in np.ndindex(*batch_shape):
        starts = [ic[b + (k,)] for k in range(len(sim))]
        # in-bounds condition and candidate positions of each index
        ok = True
        cand = []
        for k, d in enumerate(sim):
            top = c.shape[d] - ss[d]
            s = starts[k]
            if isinstance(s, C.IV):
                inb = C.And(C.i_cmp('ge', s, 0, idt), C.i_cmp('le', s, top, idt))
                lo, hi = max(0, min(s.lo, top)), min(top, max(s.hi, 0))
            else:
                inb = 0 <= s <= top
                lo = hi = min(max(s, 0), top)
            ok = C.And(ok, inb)
            cand.append((d, s, lo, hi, top))
        for off in np.ndindex(*off_sizes):
            o = [0] * out_ndim
            for d, v in zip(batch_out, b):
                o[d] = v
            for d, v in zip(off_out, off):
                o[d] = v
            base = [0] * c.ndim
            for d, v in zip(off_op_dims, off):
                base[d] = v

            def pick(k, pos):
                if k == len(cand):
                    return c[tuple(pos)]
                d, s, lo, hi, top = cand[k]

                def get(v):
                    q = list(pos)
                    q[d] += v
                    return pick(k + 1, q)
                if not isinstance(s, C.IV):
                    return get(lo)
                return mux(C.IV(s.e, s.lo, s.hi), idt, 0, top, get, dt)
            if ok is False and mode == 'fill':
                out[tuple(o)] = fill
                continue
            v = pick(0, base)
            if mode == 'fill' and ok is not True:
                v = C.c_ite(ok, v, fill, dt)
            out[tuple(o)] = v
    return SA(dt, out)


def _scatter(kind):
    def r(eqn, ins):
        x, idx, upd = ins
        p = eqn.params
        dn, mode = p['dimension_numbers'], _mode(p['mode'])
        if getattr(dn, 'operand_batching_dims', ()):
            raise Unsupported('scatter batching dims')
        c, ic, uc = to_cells(x).copy(), to_cells(idx), to_cells(upd)
        dt, idt = dt_of(x), dt_of(idx)
        uw = list(dn.update_window_dims)
        iw = list(dn.inserted_window_dims)
        sdod = list(dn.scatter_dims_to_operand_dims)
        win_op = [d for d in range(c.ndim) if d not in iw]
        win_size = [1] * c.ndim
        for d, u in zip(win_op, uw):
            win_size[d] = uc.shape[u]
        usc = [d for d in range(uc.ndim) if d not in uw]
        if kind == 'add':
            if dt.kind in 'iu':
                comb = lambda a, b: C.i_add(a, b, dt)
            elif dt.kind == 'b':
                comb = C.Or
            else:
                comb = lambda a, b: C.f_add(a, b, dt)
        elif kind == 'mul':
            comb = (lambda a, b: C.i_mul(a, b, dt)) if dt.kind in 'iu' else C.And if dt.kind == 'b' else (lambda a, b: C.f_mul(a, b, dt))
        elif kind == 'min':
            comb = (lambda a, b: C.i_min(a, b, dt)) if dt.kind in 'iu' else C.And if dt.kind == 'b' else (lambda a, b: C.f_min(a, b, dt))
        elif kind == 'max':
            comb = (lambda a, b: C.i_max(a, b, dt)) if dt.kind in 'iu' else C.Or if dt.kind == 'b' else (lambda a, b: C.f_max(a, b, dt))
        else:
            comb = lambda a, b: b
        bshape = tuple(uc.shape[d] for d in usc)
        for b in np.ndindex(*bshape):
            starts = [ic[b + (k,)] for k in range(len(sdod))]
            cand = []
            for k, d in enumerate(sdod):
                top = c.shape[d] - win_size[d]
                s = starts[k]
                if top < 0:
                    cand.append([])
                    continue
                if isinstance(s, C.IV):
                    lst = []
                    if mode == 'clip':
                        lo, hi = max(0, min(s.lo, top)), min(top, max(s.hi, 0))
                        for v in range(lo, hi + 1):
                            if top == 0:
                                g = True
                            elif v == 0:
                                g = C.i_cmp('le', s, 0, idt)
                            elif v == top:
                                g = C.i_cmp('ge', s, top, idt)
                            else:
                                g = C.i_cmp('eq', s, v, idt)
                            lst.append((v, g))
                    else:
                        for v in range(max(0, s.lo), min(top, s.hi) + 1):
                            lst.append((v, C.i_cmp('eq', s, v, idt)))
                    cand.append(lst)
                else:
                    if mode == 'clip':
                        cand.append([(min(max(s, 0), top), True)])
                    elif 0 <= s <= top:
                        cand.append([(s, True)])
                    else:
                        cand.append([])
            for pos in itertools.product(*cand):
                g = C.all_([q[1] for q in pos])
                if g is False:
                    continue
                start = [0] * c.ndim
                for d, (v, _) in zip(sdod, pos):
                    start[d] = v
                for w in np.ndindex(*[uc.shape[u] for u in uw]):
                    ui = [0] * uc.ndim
                    for d, v in zip(usc, b):
                        ui[d] = v
                    for d, v in zip(uw, w):
                        ui[d] = v
                    o = list(start)
                    for d, v in zip(win_op, w):
                        o[d] += v
                    o = tuple(o)
                    u = uc[tuple(ui)]
                    old = c[o]
                    if kind == 'add' and g is not True and dt.kind in 'iu':
                        c[o] = C.i_add(old, C.i_ite(g, u, 0, dt), dt)
                    elif kind == 'add' and g is not True and dt.kind == 'f' and CTX.float_mode == 'real' and not isinstance(u, (C.LV, C.UN)) and not C.isspecial(u):
                        c[o] = C.f_add(old, C.f_ite(g, u, dt.np.type(0), dt), dt)
                    else:
                        c[o] = C.c_ite(g, comb(old, u), old, dt)
        return SA(dt, c)
    return r


RULES['scatter'] = _scatter('set')
RULES['scatter-add'] = RULES['scatter_add'] = _scatter('add')
RULES['scatter-mul'] = RULES['scatter_mul'] = _scatter('mul')
RULES['scatter-min'] = RULES['scatter_min'] = _scatter('min')
RULES['scatter-max'] = RULES['scatter_max'] = _scatter('max')


# ------------------------------------------------------------------ reductions


def reduce_over(x, axes, f, init, dt_out=None):
    c = to_cells(x)
    axes = tuple(a % c.ndim for a in axes) if c.ndim else ()
    keep = [d for d in range(c.ndim) if d not in axes]
    out = oempty(tuple(c.shape[d] for d in keep))
    t = c.transpose(keep + list(axes)).reshape(out.shape + (-1,)) if c.size else None
    for i in np.ndindex(*out.shape):
        acc = init
        if t is not None:
            for v in t[i]:
                acc = v if acc is None else f(acc, v)
        if acc is None:
            raise Unsupported('reduction of an empty axis')
        out[i] = acc
    return SA(dt_out or dt_of(x), out)


@rule('reduce_sum')
def _rsum(eqn, ins):
    dt = dt_of(ins[0])
    if dt.kind in 'iu':
        return reduce_over(ins[0], eqn.params['axes'], lambda a, b: C.i_add(a, b, dt), 0)
    return reduce_over(ins[0], eqn.params['axes'], lambda a, b: C.f_add(a, b, dt), dt.np.type(0))


@rule('reduce_prod')
def _rprod(eqn, ins):
    dt = dt_of(ins[0])
    if dt.kind in 'iu':
        return reduce_over(ins[0], eqn.params['axes'], lambda a, b: C.i_mul(a, b, dt), 1)
    return reduce_over(ins[0], eqn.params['axes'], lambda a, b: C.f_mul(a, b, dt), dt.np.type(1))


@rule('reduce_max', 'reduce_min')
def _rmax(eqn, ins):
    dt = dt_of(ins[0])
    mx = eqn.primitive.name == 'reduce_max'
    if dt.kind == 'b':
        return reduce_over(ins[0], eqn.params['axes'], C.Or if mx else C.And, not mx)
    f = {('i', True): C.i_max, ('i', False): C.i_min, ('f', True): C.f_max, ('f', False): C.f_min}[('f' if dt.kind == 'f' else 'i', mx)]
    init = (dt.min if mx else dt.max) if dt.kind in 'iu' else dt.np.type(-np.inf if mx else np.inf)
    if to_cells(ins[0]).size:
        init = None
    return reduce_over(ins[0], eqn.params['axes'], lambda a, b: f(a, b, dt), init)


@rule('reduce_and')
def _rand(eqn, ins):
    return reduce_over(ins[0], eqn.params['axes'], C.And, True)


@rule('reduce_or')
def _ror(eqn, ins):
    return reduce_over(ins[0], eqn.params['axes'], C.Or, False)


@rule('reduce_xor')
def _rxor(eqn, ins):
    return reduce_over(ins[0], eqn.params['axes'], C.Xor, False)


@rule('argmax', 'argmin')
def _argmax(eqn, ins):
    x = ins[0]
    dt = dt_of(x)
    c = to_cells(x)
    ax, = eqn.params['axes']
    odt = DT(eqn.params['index_dtype'])
    mx = eqn.primitive.name == 'argmax'
    m = np.moveaxis(c, ax, -1)
    out = oempty(m.shape[:-1])
    for i in np.ndindex(*out.shape):
        row = m[i]
        best, bi = row[0], 0
        for k in range(1, len(row)):
            g = cmp_cells('gt' if mx else 'lt', row[k], best, dt)
            best = C.c_ite(g, row[k], best, dt)
            bi = C.i_ite(g, k, bi, odt)
        out[i] = bi
    return SA(odt, out)


def _cum(f, g):
    def r(eqn, ins):
        x = ins[0]
        dt = dt_of(x)
        ax, rev = eqn.params['axis'], eqn.params['reverse']
        c = np.moveaxis(to_cells(x), ax, 0)
        out = oempty(c.shape)
        order = range(c.shape[0])
        if rev:
            order = reversed(order)
        prev = None
        op = f if dt.kind in 'iu' else g
        for k in order:
            if prev is None:
                out[k] = c[k]
            else:
                for i in np.ndindex(*c.shape[1:]):
                    out[(k,) + i] = op(out[(prev,) + i], c[(k,) + i], dt)
            prev = k
        return SA(dt, np.moveaxis(out, 0, ax))
    return r


RULES['cumsum'] = _cum(C.i_add, C.f_add)
RULES['cumprod'] = _cum(C.i_mul, C.f_mul)
RULES['cummax'] = _cum(C.i_max, C.f_max)
RULES['cummin'] = _cum(C.i_min, C.f_min)


@rule('sort')
def _sort(eqn, ins):
    p = eqn.params
    ax, nk = p['dimension'], p['num_keys']
    dts = [dt_of(x) for x in ins]
    cs = [np.moveaxis(to_cells(x), ax, -1).copy() for x in ins]
    n = cs[0].shape[-1]

    def less(a, b):  # strict lexicographic a < b
        r = False
        for k in reversed(range(nk)):
            lt = cmp_cells('lt', a[k], b[k], dts[k])
            r = lt if r is False and k == nk - 1 else C.Or(lt, C.And(cmp_cells('eq', a[k], b[k], dts[k]), r))
        return r
    for i in np.ndindex(*cs[0].shape[:-1]):
        rows = [[c[i + (k,)] for c in cs] for k in range(n)]
        for top in range(n - 1, 0, -1):
            for j in range(top):
                a, b = rows[j], rows[j + 1]
                s = less(b, a)
                rows[j] = [C.c_ite(s, y, x, d) for x, y, d in zip(a, b, dts)]
                rows[j + 1] = [C.c_ite(s, x, y, d) for x, y, d in zip(a, b, dts)]
        for k in range(n):
            for c, v in zip(cs, rows[k]):
                c[i + (k,)] = v
    return [SA(d, np.moveaxis(c, -1, ax)) for d, c in zip(dts, cs)]


@rule('dot_general')
def _dot(eqn, ins):
    a, b = ins
    (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
    odt = DT(eqn.outvars[0].aval.dtype)
    sdt, sdt2 = dt_of(a), dt_of(b)
    ca, cb = to_cells(a), to_cells(b)
    lf = [d for d in range(ca.ndim) if d not in lc and d not in lb]
    rf = [d for d in range(cb.ndim) if d not in rc and d not in rb]
    ta = ca.transpose(list(lb) + lf + list(lc))
    tb = cb.transpose(list(rb) + rf + list(rc))
    nb = len(lb)
    bs = ta.shape[:nb]
    ls, rs = ta.shape[nb:nb + len(lf)], tb.shape[nb:nb + len(rf)]
    ks = ta.shape[nb + len(lf):]
    out = oempty(bs + ls + rs)
    add, mul = (C.i_add, C.i_mul) if odt.kind in 'iu' else (C.f_add, C.f_mul)
    for i in np.ndindex(*bs):
        for l in np.ndindex(*ls):
            for r in np.ndindex(*rs):
                acc = 0 if odt.kind in 'iu' else odt.np.type(0)
                for k in np.ndindex(*ks):
                    x = C.convert(ta[i + l + k], sdt, odt)
                    y = C.convert(tb[i + r + k], sdt2, odt)
                    acc = add(acc, mul(x, y, odt), odt)
                out[i + l + r] = acc
    return SA(odt, out)


# ----------------------------------------------------------------- random keys


@rule('random_split')
def _rsplit(eqn, ins):
    k, = ins
    shape = tuple(eqn.params['shape'])
    c = to_cells(k)
    out = oempty(c.shape + shape)
    for i in np.ndindex(*c.shape):
        for j in np.ndindex(*shape):
            out[i + j] = Key(('split', c[i].term, shape, j))
    for i in np.ndindex(*c.shape):
        CTX.keyuse.append(('split', c[i].term, shape))
    return SA(dt_of(k), out)


CTX.keyuse = []


@rule('random_fold_in')
def _rfold(eqn, ins):
    k, m = ins
    ck = to_cells(k)
    cm = np.broadcast_to(to_cells(m), ck.shape)
    out = oempty(ck.shape)
    for i in np.ndindex(*ck.shape):
        if isinstance(cm[i], C.IV):
            raise Unsupported('fold_in with symbolic data')
        CTX.keyuse.append(('fold', ck[i].term, cm[i]))
        out[i] = Key(('fold', ck[i].term, cm[i]))
    return SA(dt_of(k), out)


@rule('random_wrap')
def _rwrap(eqn, ins):
    x, = ins
    if isinstance(x, SA):
        if x.c.size and isinstance(x.c.reshape(-1)[0], tuple):
            out = oempty(x.c.shape[:-1])
            for i in np.ndindex(*out.shape):
                out[i] = x.c[i + (0,)][1]
            return SA(getdt(eqn.outvars[0].aval.dtype), out)
        raise Unsupported('random_wrap of symbolic data')
    k = jax.random.wrap_key_data(jnp.asarray(x))
    return SA(getdt(k.dtype), conc_key_cells(k))


@rule('random_seed')
def _rseed(eqn, ins):
    x, = ins
    out = oempty(x.shape)
    if isinstance(x, SA):
        if x.dt.w > 32:
            raise Unsupported('symbolic seed wider than 32 bits')
        for i in np.ndindex(*x.shape):
            v = x.c[i]
            if C.concrete(v):
                out[i] = Key(('data', tuple(int(u) for u in np.asarray(jax.random.key_data(jax.random.key(int(v)))))))
            else:
                w = C.convert(C.convert(v, x.dt, DT(np.int32)) if x.dt.kind == 'i' else v, DT(np.int32) if x.dt.kind == 'i' else x.dt, DT(np.uint32))
                out[i] = Key(('data', (0, w)))
        return SA(getdt(eqn.outvars[0].aval.dtype), out)
    for i in np.ndindex(*x.shape):
        k = jax.random.key(int(x[i]))
        out[i] = Key(('data', tuple(int(v) for v in np.asarray(jax.random.key_data(k)))))
    return SA(getdt(eqn.outvars[0].aval.dtype), out)


@rule('random_unwrap')
def _runwrap(eqn, ins):
    k, = ins
    ck = to_cells(k)
    out = oempty(ck.shape + (2,))
    for i in np.ndindex(*ck.shape):
        t = ck[i].term
        if t[0] == 'data':
            out[i + (0,)], out[i + (1,)] = t[1]
            continue
        r = t
        while r[0] in ('split', 'fold'):
            r = r[1]
        if r[0] != 'data' or not all(C.concrete(v) for v in r[1]):
            raise Unsupported('bits of a random key')
        out[i + (0,)], out[i + (1,)] = (int(v) for v in np.asarray(jax.random.key_data(real_key(t, {}))))
    return SA(DT(np.uint32), out)


@rule('debug_callback')
def _dcb(eqn, ins):
    CTX.effects.append((eqn.params['callback'], list(ins), CTX.guards))
    return []


@rule('pure_callback')
def _pcb(eqn, ins):
    """ functions computed on the host: only with known arguments """
    if any(isinstance(x, SA) and not all(C.concrete(c) for c in x.c.reshape(-1)) for x in ins):
        raise Unsupported('host function of symbolic arguments')
    a = [jnp.asarray(np.asarray([c for c in x.c.reshape(-1)]).reshape(x.shape).astype(x.dt.np)) if isinstance(x, SA) else jnp.asarray(x) for x in ins]
    outs = eqn.params['callback'](*a)
    return [np.asarray(o).astype(v.aval.dtype) for o, v in zip(jax.tree_util.tree_leaves(outs), eqn.outvars)]
