"""Tracing of the real functions and symbolic execution of their jaxprs."""
import functools

import numpy as np
import z3

import jax
import jax.numpy as jnp
from jax import tree_util as tu

from . import cells as C
from .cells import CTX, DT
from . import interp as I
from .interp import SA, oempty, is_key_array
from . import rnd


def sds(x):
    if isinstance(x, SA):
        d = x.dt.key_dtype if x.dt.kind == 'k' else x.dt.np
        return jax.ShapeDtypeStruct(x.shape, d)
    if is_key_array(x):
        return jax.ShapeDtypeStruct(x.shape, x.dtype)
    if isinstance(x, jax.ShapeDtypeStruct):
        return x
    x = np.asarray(x)
    return jax.ShapeDtypeStruct(x.shape, jax.dtypes.canonicalize_dtype(x.dtype))


def leaf(x):
    return isinstance(x, SA)


def trace(fn, args):
    """ -> (closed_jaxpr, out_tree, flat_args) """
    flat, tree = tu.tree_flatten(args, is_leaf=leaf)
    box = {}

    def flatfn(*fl):
        out = fn(*tu.tree_unflatten(tree, fl))
        of, ot = tu.tree_flatten(out)
        box['t'] = ot
        return of
    closed = jax.make_jaxpr(flatfn)(*[sds(x) for x in flat])
    return closed, box['t'], flat


def norm(x):
    if isinstance(x, SA) or is_key_array(x):
        return I.simplify_array(x) if isinstance(x, SA) else x
    a = np.asarray(x)
    return a.astype(jax.dtypes.canonicalize_dtype(a.dtype))


def symrun(fn, *args, unwind=64):
    """ run the real function `fn` on symbolic arguments """
    rnd.patch()
    closed, tree, flat = trace(fn, args)
    outs = I.Interp(unwind).run(closed, *[norm(x) for x in flat])
    return tu.tree_unflatten(tree, outs)


def realrun(fn, *args, jit=True):
    """ run the real compiled function on concrete arguments (draws from rnd.TABLE) """
    rnd.patch()
    f = jax.jit(fn) if jit else fn
    out = f(*args)
    out = jax.block_until_ready(out)
    return tu.tree_map(lambda x: x if is_key_array(x) else np.asarray(x), out)


# ------------------------------------------------------------- symbolic inputs


def sym_int(name, shape, dtype, lo=None, hi=None):
    """ array of symbolic integers; lo/hi numbers """
    dt = DT(dtype)
    out = oempty(shape)
    for i in np.ndindex(*shape):
        out[i] = C.ivar(nm(name, i), dt, lo, hi)
    return SA(dt, out)


def sym_bool(name, shape):
    out = oempty(shape)
    for i in np.ndindex(*shape):
        out[i] = bool(CTX.fixed[nm(name, i)]) if nm(name, i) in CTX.fixed else z3.Bool(nm(name, i))
    return SA(DT(bool), out)


def sym_real(name, shape, dtype=np.float32, pos=False):
    out = oempty(shape)
    for i in np.ndindex(*shape):
        v = z3.Real(nm(name, i))
        if pos:
            CTX.axioms.append(v > 0)
            CTX.pos.add(nm(name, i))
        out[i] = C.RV(v)
    return SA(DT(dtype), out)


def sym_fp(name, shape, dtype=np.float32, finite=True):
    dt = DT(dtype)
    out = oempty(shape)
    for i in np.ndindex(*shape):
        v = z3.FP(nm(name, i), C.FPS[dt.w])
        if finite:
            CTX.axioms.append(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
        out[i] = C.FV(v)
    return SA(dt, out)


def nm(name, i):
    return CTX.prefix + name + ''.join(f'_{k}' for k in i)


def concretize(tree, ev, root=None):
    """ evaluate a pytree of symbolic arrays with an Evaluator """
    def f(x):
        if isinstance(x, SA):
            if x.dt.kind == 'k':
                return root
            return jnp.asarray(ev.array(x).astype(x.dt.np))
        return x if is_key_array(x) else jnp.asarray(x)
    return tu.tree_map(f, tree, is_leaf=leaf)


def expr_size(exprs):
    seen = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        stack.extend(e.children())
    return len(seen)
