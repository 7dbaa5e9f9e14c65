"""Evaluation of z3 terms under a concrete assignment (own evaluator: real log/sqrt, real products for MUL/DIV)."""
import math
from fractions import Fraction

import numpy as np
import z3

from . import cells as C
from .cells import CTX, Unsupported


class Evaluator:

    def __init__(self, env):
        self.env = dict(env)      # constant name -> int | Fraction | float | bool
        self.cache = {}
        self.keep = []
        self.default = set()

    def cell(self, x):
        if C.concrete(x):
            return x
        if isinstance(x, C.IV):
            return self.int_(x)
        if isinstance(x, C.RV):
            return float(self(x.e))
        if isinstance(x, C.LV):
            m = self(x.m)
            with np.errstate(all='ignore'):
                return float(self(x.r)) + (math.log(m) if m > 0 else (-math.inf if m == 0 else math.nan)) / x.q
        if isinstance(x, C.UN):
            for g, v in x.alts:
                if C.isb(g):
                    if g:
                        return self.cell(v)
                elif self(g):
                    return self.cell(v)
            raise Unsupported('no alternative of the union is active')
        if isinstance(x, z3.BoolRef):
            return bool(self(x))
        if isinstance(x, C.FV):
            return self(x.e)
        raise Unsupported(f'cannot evaluate {type(x)}')

    def int_(self, x):
        v = self(x.e)
        w = x.e.size()
        if x.lo < 0 and v >> (w - 1):
            v -= 1 << w
        return v

    def array(self, sa, dtype=None):
        from .interp import SA
        if not isinstance(sa, SA):
            return np.asarray(sa)
        if sa.dt.kind == 'k':
            return sa
        out = np.empty(sa.c.shape, dtype or (np.float64 if sa.dt.kind == 'f' else sa.dt.np))
        for i in np.ndindex(*sa.c.shape):
            out[i] = self.cell(sa.c[i])
        return out

    def __call__(self, e):
        """ iterative post-order evaluation """
        cache = self.cache
        r = cache.get(e.get_id())
        if r is not None:
            return r
        self.keep.append(e)
        stack = [e]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in cache:
                stack.pop()
                continue
            # lazy ite
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c = t.arg(0)
                if c.get_id() not in cache:
                    stack.append(c)
                    continue
                b = t.arg(1) if cache[c.get_id()] else t.arg(2)
                if b.get_id() not in cache:
                    stack.append(b)
                    continue
                cache[i] = cache[b.get_id()]
                stack.pop()
                continue
            ch = t.children()
            todo = [x for x in ch if x.get_id() not in cache]
            if todo:
                stack.extend(todo)
                continue
            cache[i] = self.apply(t, [cache[x.get_id()] for x in ch])
            stack.pop()
        return cache[e.get_id()]

    def apply(self, t, a):
        d = t.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if not a:
                if n in self.env:
                    return self.env[n]
                if n in CTX.defs:
                    kind, args = CTX.defs[n]
                    if kind == 'sqrt':
                        v = self(args[0])
                        return math.sqrt(v) if v >= 0 else math.nan
                    if callable(kind):
                        return kind(*[self(x) for x in args])
                self.default.add(n)
                s = t.sort()
                return False if s == z3.BoolSort() else 0
            return self.ufapply(n, a)
        f = OPS.get(k)
        if f is None:
            raise Unsupported(f'evaluation of {d.name()} ({k})')
        return f(t, a)

    def ufapply(self, n, a):
        if n == 'MUL':
            return a[0] * a[1]
        if n == 'DIV':
            return a[0] / a[1] if a[1] else math.nan
        if n == 'DIV0':
            return math.nan
        if n == 'LOG':
            return math.log(a[0]) if a[0] > 0 else -math.inf
        if n == 'SQRT':
            return math.sqrt(a[0]) if a[0] >= 0 else math.nan
        if n == 'EXP':
            return math.exp(a[0])
        f = UFS.get(n)
        if f is None:
            raise Unsupported(f'evaluation of uninterpreted function {n}')
        return f(*a)


UFS = {}
import scipy.special as _sp  # noqa: E402
UFS.update(SIN=math.sin, COS=math.cos, TANH=math.tanh, ERF=math.erf, ERF_INV=lambda x: float(_sp.erfinv(float(x))),
           LGAMMA=math.lgamma, EXP2=lambda x: 2.0 ** x, POW=lambda x, y: float(x) ** float(y))


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _m(v, w):
    return v & ((1 << w) - 1)


def _bv2(f):
    return lambda t, a: _m(f(*a), t.size())


def _chain(op):
    def f(t, a):
        return all(op(x, y) for x, y in zip(a, a[1:]))
    return f


def _sum(t, a):
    s = a[0]
    for x in a[1:]:
        s = s + x
    return s


def _prod(t, a):
    s = a[0]
    for x in a[1:]:
        s = s * x
    return s


def _sub(t, a):
    s = a[0]
    for x in a[1:]:
        s = s - x
    return s


def _fold(f):
    def g(t, a):
        s = a[0]
        for x in a[1:]:
            s = f(s, x)
        return _m(s, t.size())
    return g


def _sdiv(t, a):
    w = t.size()
    x, y = _s(a[0], w), _s(a[1], w)
    if y == 0:
        return _m(-1 if x >= 0 else 1, w)
    return _m(C.tdiv(x, y), w)


def _srem(t, a):
    w = t.size()
    x, y = _s(a[0], w), _s(a[1], w)
    if y == 0:
        return a[0]
    return _m(x - y * C.tdiv(x, y), w)


def _concat(t, a):
    r, args = 0, t.children()
    for v, c in zip(a, args):
        r = (r << c.size()) | v
    return r


Z = z3
OPS = {
    Z.Z3_OP_TRUE: lambda t, a: True,
    Z.Z3_OP_FALSE: lambda t, a: False,
    Z.Z3_OP_AND: lambda t, a: all(a),
    Z.Z3_OP_OR: lambda t, a: any(a),
    Z.Z3_OP_NOT: lambda t, a: not a[0],
    Z.Z3_OP_XOR: lambda t, a: bool(a[0]) != bool(a[1]),
    Z.Z3_OP_IMPLIES: lambda t, a: (not a[0]) or a[1],
    Z.Z3_OP_IFF: lambda t, a: bool(a[0]) == bool(a[1]),
    Z.Z3_OP_EQ: _chain(lambda x, y: x == y),
    Z.Z3_OP_DISTINCT: lambda t, a: len(set(a)) == len(a),
    Z.Z3_OP_ANUM: lambda t, a: Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else t.as_long(),
    Z.Z3_OP_ADD: _sum, Z.Z3_OP_MUL: _prod, Z.Z3_OP_SUB: _sub,
    Z.Z3_OP_UMINUS: lambda t, a: -a[0],
    Z.Z3_OP_DIV: lambda t, a: (a[0] / a[1]) if a[1] else math.nan,
    Z.Z3_OP_IDIV: lambda t, a: a[0] // a[1],
    Z.Z3_OP_MOD: lambda t, a: a[0] % a[1],
    Z.Z3_OP_LE: lambda t, a: a[0] <= a[1], Z.Z3_OP_LT: lambda t, a: a[0] < a[1],
    Z.Z3_OP_GE: lambda t, a: a[0] >= a[1], Z.Z3_OP_GT: lambda t, a: a[0] > a[1],
    Z.Z3_OP_TO_REAL: lambda t, a: Fraction(a[0]) if isinstance(a[0], int) else a[0],
    Z.Z3_OP_TO_INT: lambda t, a: math.floor(a[0]),
    Z.Z3_OP_BNUM: lambda t, a: t.as_long(),
    Z.Z3_OP_BADD: _fold(lambda x, y: x + y), Z.Z3_OP_BMUL: _fold(lambda x, y: x * y),
    Z.Z3_OP_BSUB: _fold(lambda x, y: x - y),
    Z.Z3_OP_BNEG: lambda t, a: _m(-a[0], t.size()),
    Z.Z3_OP_BAND: _fold(lambda x, y: x & y), Z.Z3_OP_BOR: _fold(lambda x, y: x | y),
    Z.Z3_OP_BXOR: _fold(lambda x, y: x ^ y), Z.Z3_OP_BNOT: lambda t, a: _m(~a[0], t.size()),
    Z.Z3_OP_BUDIV: lambda t, a: a[0] // a[1] if a[1] else _m(-1, t.size()),
    Z.Z3_OP_BUREM: lambda t, a: a[0] % a[1] if a[1] else a[0],
    Z.Z3_OP_BSDIV: _sdiv, Z.Z3_OP_BSREM: _srem,
    Z.Z3_OP_ULEQ: lambda t, a: a[0] <= a[1], Z.Z3_OP_ULT: lambda t, a: a[0] < a[1],
    Z.Z3_OP_UGEQ: lambda t, a: a[0] >= a[1], Z.Z3_OP_UGT: lambda t, a: a[0] > a[1],
    Z.Z3_OP_SLEQ: lambda t, a: _s(a[0], t.arg(0).size()) <= _s(a[1], t.arg(0).size()),
    Z.Z3_OP_SLT: lambda t, a: _s(a[0], t.arg(0).size()) < _s(a[1], t.arg(0).size()),
    Z.Z3_OP_SGEQ: lambda t, a: _s(a[0], t.arg(0).size()) >= _s(a[1], t.arg(0).size()),
    Z.Z3_OP_SGT: lambda t, a: _s(a[0], t.arg(0).size()) > _s(a[1], t.arg(0).size()),
    Z.Z3_OP_BSHL: lambda t, a: _m(a[0] << a[1], t.size()) if a[1] < t.size() else 0,
    Z.Z3_OP_BLSHR: lambda t, a: a[0] >> a[1] if a[1] < t.size() else 0,
    Z.Z3_OP_BASHR: lambda t, a: _m(_s(a[0], t.size()) >> min(a[1], t.size() - 1), t.size()),
    Z.Z3_OP_EXTRACT: lambda t, a: (a[0] >> t.params()[1]) & ((1 << (t.params()[0] - t.params()[1] + 1)) - 1),
    Z.Z3_OP_ZERO_EXT: lambda t, a: a[0],
    Z.Z3_OP_SIGN_EXT: lambda t, a: _m(_s(a[0], t.arg(0).size()), t.size()),
    Z.Z3_OP_CONCAT: _concat,
    Z.Z3_OP_BV2INT: lambda t, a: a[0],
    Z.Z3_OP_INT2BV: lambda t, a: _m(a[0], t.size()),
}
if hasattr(Z, 'Z3_OP_SBV2INT'):
    OPS[Z.Z3_OP_SBV2INT] = lambda t, a: _s(a[0], t.arg(0).size())
for _k in ('Z3_OP_BUDIV_I', 'Z3_OP_BUREM_I', 'Z3_OP_BSDIV_I', 'Z3_OP_BSREM_I'):
    if hasattr(Z, _k):
        OPS[getattr(Z, _k)] = OPS[getattr(Z, _k[:-2])]

# IEEE terms are evaluated with numpy (round to nearest)
_NP = {(5, 11): np.float16, (8, 24): np.float32, (11, 53): np.float64}


def _npt(s):
    return _NP[(s.ebits(), s.sbits())]


def _fpnum(t, a):
    ty = _npt(t.sort())
    if t.isNaN():
        return ty(np.nan)
    if t.isInf():
        return ty(-np.inf if t.isNegative() else np.inf)
    sbits, ebits = t.sort().sbits(), t.sort().ebits()
    sig = t.significand_as_long()
    ex = t.exponent_as_long(True)
    w = sbits + ebits
    bits = (int(t.isNegative()) << (w - 1)) | (ex << (sbits - 1)) | sig
    it = {16: np.uint16, 32: np.uint32, 64: np.uint64}[w]
    return np.array(bits, it).view(ty)[()]


def _fp(f):
    def g(t, a):
        with np.errstate(all='ignore'):
            return f(t, a)
    return g


OPS.update({
    Z.Z3_OP_FPA_NUM: _fpnum,
    Z.Z3_OP_FPA_PLUS_INF: lambda t, a: _npt(t.sort())(np.inf), Z.Z3_OP_FPA_MINUS_INF: lambda t, a: _npt(t.sort())(-np.inf),
    Z.Z3_OP_FPA_NAN: lambda t, a: _npt(t.sort())(np.nan),
    Z.Z3_OP_FPA_PLUS_ZERO: lambda t, a: _npt(t.sort())(0.), Z.Z3_OP_FPA_MINUS_ZERO: lambda t, a: _npt(t.sort())(-0.),
    Z.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN: lambda t, a: 'rne', Z.Z3_OP_FPA_RM_TOWARD_ZERO: lambda t, a: 'rtz',
    Z.Z3_OP_FPA_RM_NEAREST_TIES_TO_AWAY: lambda t, a: 'rna', Z.Z3_OP_FPA_RM_TOWARD_NEGATIVE: lambda t, a: 'rtn',
    Z.Z3_OP_FPA_ADD: _fp(lambda t, a: a[1] + a[2]), Z.Z3_OP_FPA_SUB: _fp(lambda t, a: a[1] - a[2]),
    Z.Z3_OP_FPA_MUL: _fp(lambda t, a: a[1] * a[2]), Z.Z3_OP_FPA_DIV: _fp(lambda t, a: a[1] / a[2]),
    Z.Z3_OP_FPA_SQRT: _fp(lambda t, a: np.sqrt(a[1])),
    Z.Z3_OP_FPA_NEG: lambda t, a: -a[0], Z.Z3_OP_FPA_ABS: lambda t, a: abs(a[0]),
    Z.Z3_OP_FPA_EQ: lambda t, a: bool(a[0] == a[1]), Z.Z3_OP_FPA_LT: lambda t, a: bool(a[0] < a[1]),
    Z.Z3_OP_FPA_LE: lambda t, a: bool(a[0] <= a[1]), Z.Z3_OP_FPA_GT: lambda t, a: bool(a[0] > a[1]),
    Z.Z3_OP_FPA_GE: lambda t, a: bool(a[0] >= a[1]),
    Z.Z3_OP_FPA_IS_NAN: lambda t, a: bool(np.isnan(a[0])), Z.Z3_OP_FPA_IS_INF: lambda t, a: bool(np.isinf(a[0])),
    Z.Z3_OP_FPA_IS_ZERO: lambda t, a: bool(a[0] == 0), Z.Z3_OP_FPA_IS_NEGATIVE: lambda t, a: bool(np.signbit(a[0]) and not np.isnan(a[0])),
    Z.Z3_OP_FPA_IS_POSITIVE: lambda t, a: bool(not np.signbit(a[0]) and not np.isnan(a[0])),
})


def _tofp(t, a):
    ty = _npt(t.sort())
    if len(a) == 1:  # from bits
        w = t.arg(0).size()
        return np.array(a[0], {16: np.uint16, 32: np.uint32, 64: np.uint64}[w]).view(ty)[()]
    x, s = a[1], t.arg(1).sort()
    if z3.is_bv_sort(s):
        return ty(_s(x, s.size()))
    return ty(float(x)) if not isinstance(x, np.generic) else ty(x)


def _roundint(t, a):
    f = {'rne': np.rint, 'rtn': np.floor, 'rtz': np.trunc, 'rna': lambda x: np.copysign(np.floor(np.abs(x) + type(x)(.5)), x)}[a[0]]
    return type(a[1])(f(a[1]))


OPS[Z.Z3_OP_FPA_TO_FP] = _tofp
OPS[Z.Z3_OP_FPA_TO_FP_UNSIGNED] = lambda t, a: _npt(t.sort())(a[1])
OPS[Z.Z3_OP_FPA_ROUND_TO_INTEGRAL] = _roundint
OPS[Z.Z3_OP_FPA_TO_SBV] = lambda t, a: _m(int(np.trunc(a[1])) if np.isfinite(a[1]) else 0, t.size())
OPS[Z.Z3_OP_FPA_TO_UBV] = lambda t, a: _m(int(np.trunc(a[1])) if np.isfinite(a[1]) else 0, t.size())
OPS[Z.Z3_OP_FPA_TO_REAL] = lambda t, a: Fraction(float(a[0]))
