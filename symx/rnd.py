"""
Randomness as nondeterministic stubs.

The samplers of jax.random used by bartz are replaced, for tracing, by one
primitive `symrand`. In the symbolic interpreter each scalar draw is a free
variable constrained only by the contract of the sampler; in replays the same
primitive is compiled into the real program and returns prescribed values.

contracts (jax.random docs):
  uniform(lo, hi): lo <= v < hi  (v == lo if the interval is empty)
  randint(lo, hi): lo <= v < hi  (v == lo if the interval is empty)
  normal:          any real
  gamma(a):        v > 0
"""
import numpy as np
import z3

import jax
import jax.numpy as jnp
from jax import core as jcore
from jax.interpreters import batching, mlir
from jax._src import random as jr, dispatch, dtypes

from . import cells as C
from .cells import CTX, DT, Unsupported
from .interp import SA, oempty, oarr, rule, to_cells, dt_of, RULES, Key

symrand_p = jcore.Primitive('symrand')


def _abstract(key, *bounds, kind, shape, dtype):
    return jcore.ShapedArray(key.shape + tuple(shape), np.dtype(dtype))


symrand_p.def_abstract_eval(_abstract)


def _batch(args, dims, *, kind, shape, dtype):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    key, kd = args[0], dims[0]
    if kd is batching.not_mapped:
        key = jnp.broadcast_to(key, (size,) + key.shape)
    else:
        key = jnp.moveaxis(key, kd, 0) if kd != 0 else key
    out = [key]
    for a, d in zip(args[1:], dims[1:]):
        if d is batching.not_mapped:
            a = jnp.broadcast_to(a, (size,) + a.shape)
        else:
            a = jnp.moveaxis(a, d, 0)
        out.append(a)
    return symrand_p.bind(*out, kind=kind, shape=shape, dtype=dtype), 0


batching.primitive_batchers[symrand_p] = _batch
symrand_p.def_impl(lambda *a, **k: dispatch.apply_primitive(symrand_p, *a, **k))

# ------------------------------------------------------------ prescribed draws


class Table:
    """values returned by the stubs in replays"""

    def __init__(self):
        self.values = {}    # (kind, keydata, pos) -> number
        self.log = []
        self.rng = np.random.default_rng(0)
        self.missing = 0
        self.clamped = 0    # prescribed values outside the contract


TABLE = Table()


def reset_table(seed=0):
    TABLE.values = {}
    TABLE.log = []
    TABLE.rng = np.random.default_rng(seed)
    TABLE.missing = 0


def _default(kind, bounds, dtype):
    r = TABLE.rng
    if kind == 'uniform':
        lo, hi = map(float, bounds)
        v = dtype.type(lo + r.random() * (hi - lo))
        if not v < dtype.type(hi):
            v = dtype.type(lo)
        return v
    if kind == 'randint':
        lo, hi = map(int, bounds)
        return lo if hi <= lo else int(r.integers(lo, hi))
    if kind == 'normal':
        return r.normal()
    if kind == 'gamma':
        return max(r.gamma(float(bounds[0])), 1e-6)
    raise NotImplementedError(kind)


def _host(kind, shape, dtype, keydata, *bounds):
    keydata = np.asarray(keydata)
    bounds = [np.asarray(b) for b in bounds]
    kshape = keydata.shape[:-1]
    out = np.empty(kshape + tuple(shape), dtype)
    for i in np.ndindex(*kshape):
        kd = tuple(int(v) for v in keydata[i])
        for j in np.ndindex(*shape):
            b = [x[i + j] for x in bounds]
            k = (kind, kd, j)
            if k in TABLE.values:
                v = TABLE.values[k]
                if callable(v):
                    v = v(*b)
            else:
                TABLE.missing += 1
                v = _default(kind, b, np.dtype(dtype))
                TABLE.values[k] = v
            if kind == 'uniform':
                # the stub obeys the contract of the sampler also after rounding
                lo, hi = b
                v = np.dtype(dtype).type(v)
                if not v < hi:
                    v = np.nextafter(np.dtype(dtype).type(hi), np.dtype(dtype).type(lo)) if hi > lo else lo
                if v < lo:
                    v = lo
            elif kind == 'randint':
                lo, hi = map(int, b)
                if not lo <= int(v) < hi:
                    TABLE.clamped += 1
                    v = lo if hi <= lo else lo + (int(v) - lo) % (hi - lo)
            elif kind == 'gamma':
                v = max(float(v), 1e-30)
            out[i + j] = v
            TABLE.log.append((kind, kd, j, float(v), [float(x) for x in b]))
    return out


def _impl(key, *bounds, kind, shape, dtype):
    data = jax.random.key_data(key)
    res = jax.ShapeDtypeStruct(key.shape + tuple(shape), dtype)
    return jax.pure_callback(lambda d, *b: _host(kind, shape, dtype, d, *b), res, data, *bounds)


mlir.register_lowering(symrand_p, mlir.lower_fun(_impl, multiple_results=False))

# ------------------------------------------------------------------- patching


def _shape(shape):
    shape = getattr(shape, 'positional', shape)
    return tuple(int(s) for s in shape)


def _bc(x, shape, dtype):
    return jnp.broadcast_to(jnp.asarray(x).astype(dtype), shape)


def p_uniform(key, shape, dtype, minval, maxval):
    shape, dtype = _shape(shape), np.dtype(dtype)
    return symrand_p.bind(key, _bc(minval, shape, dtype), _bc(maxval, shape, dtype), kind='uniform', shape=shape, dtype=dtype)


def p_randint(key, shape, minval, maxval, dtype):
    # like jax: bounds are clipped to the range of dtype
    shape, dtype = _shape(shape), np.dtype(dtype)
    info = np.iinfo(dtype)

    def conv(x):
        x = jnp.asarray(x)
        if not jnp.issubdtype(x.dtype, np.integer):
            x = x.astype(int)
        xi = np.iinfo(x.dtype)
        if xi.min < info.min or xi.max > info.max:
            x = jnp.clip(x, max(info.min, xi.min), min(info.max, xi.max))
        return x
    return symrand_p.bind(key, _bc(conv(minval), shape, dtype), _bc(conv(maxval), shape, dtype), kind='randint', shape=shape, dtype=dtype)


def p_normal(key, shape, dtype):
    shape, dtype = _shape(shape), np.dtype(dtype)
    return symrand_p.bind(key, kind='normal', shape=shape, dtype=dtype)


def p_gamma(key, a, shape, dtype, log_space=False):
    dtype = np.dtype(dtype)
    shape = np.shape(a) if shape is None else _shape(shape)
    g = symrand_p.bind(key, _bc(a, shape, dtype), kind='gamma', shape=shape, dtype=dtype)
    return jnp.log(g) if log_space else g


_ORIG = {}


def patch():
    if _ORIG:
        return
    for n, f in dict(_uniform=p_uniform, _randint=p_randint, _normal=p_normal, _normal_real=p_normal, _gamma=p_gamma).items():
        _ORIG[n] = getattr(jr, n)
        setattr(jr, n, f)
    jax.clear_caches()


def unpatch():
    for n, f in _ORIG.items():
        setattr(jr, n, f)
    _ORIG.clear()
    jax.clear_caches()


# ---------------------------------------------------------------- symbolic rule


class Draw:
    __slots__ = ('kind', 'term', 'pos', 'shape', 'cell', 'bounds', 'dt', 'name')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


@rule('symrand')
def _symrand(eqn, ins):
    p = eqn.params
    kind, shape, dt = p['kind'], p['shape'], DT(p['dtype'])
    kc = to_cells(ins[0])
    bs = [to_cells(b) for b in ins[1:]]
    out = oempty(kc.shape + tuple(shape))
    for i in np.ndindex(*kc.shape):
        term = kc[i].term
        CTX.keyuse.append(('draw', term, (kind, tuple(shape))))
        for j in np.ndindex(*shape):
            out[i + j] = draw(kind, term, shape, j, [b[i + j] for b in bs], dt)
    return SA(dt, out)


def _bid(c):
    if isinstance(c, C.IV):
        return ('iv', c.e.get_id())
    if isinstance(c, C.RV):
        return ('rv', c.e.get_id())
    if isinstance(c, C.UN):
        return ('un',) + tuple((C.zb(g).get_id(), _bid(v)) for g, v in c.alts)
    if isinstance(c, C.LV):
        return ('lv', c.r.get_id(), c.m.get_id(), c.q)
    return ('c', float(c))


def draw(kind, term, shape, pos, bounds, dt):
    ident = (kind, term, shape, pos, tuple(_bid(b) for b in bounds))
    if ident in CTX.draw_vars:
        return CTX.draw_vars[ident].cell
    n = len(CTX.draws)
    name = f'{CTX.prefix}{kind}{n}'
    if kind == 'randint':
        lo, hi = bounds
        l0, h0 = C.irange(lo)[0], max(C.irange(hi)[1] - 1, C.irange(lo)[1])
        v = C.ivar(name, dt, l0, h0)
        empty = C.i_cmp('le', hi, lo, dt)
        # the whole contract, without what the interval of the cell already says: copies of the draw (see c12) need it
        w = C.IV(v.e, dt.min, dt.max) if isinstance(v, C.IV) else v
        CTX.defax.setdefault(name, []).append(C.zb(C.i_cmp('ge', w, lo, dt)))
        CTX.defax.setdefault(name, []).append(C.zb(C.Or(C.And(C.Not(empty), C.i_cmp('lt', w, hi, dt)), C.And(empty, C.i_cmp('eq', w, lo, dt)))))
    elif kind == 'uniform':
        lo, hi = bounds
        if CTX.float_mode == 'fp':
            raise Unsupported('random draws in floating point mode')
        v = C.RV(z3.Real(name))
        empty = C.f_cmp('le', hi, lo, dt)
        CTX.defax.setdefault(name, []).append(C.zb(C.f_cmp('ge', v, lo, dt)))
        CTX.defax.setdefault(name, []).append(C.zb(C.Or(C.And(C.Not(empty), C.f_cmp('lt', v, hi, dt)), C.And(empty, C.f_cmp('eq', v, lo, dt)))))
    elif kind == 'normal':
        v = C.RV(z3.Real(name))
    elif kind == 'gamma':
        v = C.RV(z3.Real(name))
        CTX.defax.setdefault(name, []).append(v.e > 0)
    else:
        raise Unsupported(kind)
    d = Draw(kind=kind, term=term, pos=pos, shape=shape, cell=v, bounds=bounds, dt=dt, name=name)
    CTX.draws.append(d)
    CTX.draw_vars[ident] = d
    return v


def prescribe(draws, value, roots):
    """ fill the replay table: value(draw) -> number """
    from .interp import real_key
    cache = {}
    for d in draws:
        if d.term not in cache:
            k = real_key(d.term, roots)
            cache[d.term] = tuple(int(v) for v in np.asarray(jax.random.key_data(k)))
        TABLE.values[(d.kind, cache[d.term], d.pos)] = value(d)
