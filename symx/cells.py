"""
Cells: the scalar values handled by the symbolic interpreter.

bool   : python bool | z3 BoolRef
int    : python int  | IV (bit-vector of the dtype's width + interval)
float  : numpy scalar | RV (real) | LV (real + log part) | FV (IEEE float) | UN (guarded union)
key    : Key term (see rnd.py)

All the operations fold constants, so that the same functions can be run on
concrete values.
"""
import math
from fractions import Fraction

import numpy as np
import z3


class Unsupported(Exception):
    """The code uses something the encoder does not model (inconclusive)."""


class Ctx:
    """Global configuration and side conditions of one symbolic run."""

    def __init__(self):
        self.reset()

    def reset(self, float_mode='real', nonlin='exact'):
        self.float_mode = float_mode      # 'real' | 'fp'
        self.nonlin = nonlin              # 'exact' | 'uf' (nonlinear products abstracted)
        self.axioms = []                  # z3 formulas that define auxiliary variables
        self.defax = {}                   # auxiliary variable -> axioms (always satisfiable: usable on demand)
        self.draws = []                   # log of random draws
        self.draw_vars = {}
        self.defs = {}                    # aux var name -> (func, args) for evaluation
        self._cache = {}
        self._n = 0
        self.effects = []
        self.prefix = ''
        self.unwind = []                  # unwinding assertions of symbolic while loops
        self.union_cap = 48
        self.prims = {}                   # primitive name -> number of equations interpreted
        self.unmodelled = []
        self.pos = set()                  # positive inputs
        self.unit = set()                 # inputs in (0, 1)
        self.functions = set()
        self.keyuse = []
        self.cutlog = False               # abstract comparisons of logarithms with free booleans
        self.cuts = []                    # (boolean, operator, cells) of the comparisons abstracted
        self.rank = {}                    # z3 id -> (rank, expr): floating point variables with a known strict order
        self.fixed = {}                   # name -> value of discrete variables (refinement of abstract counterexamples)

    def fresh(self, base, sort):
        self._n += 1
        return z3.Const(f'{self.prefix}{base}!{self._n}', sort)


CTX = Ctx()


def cone(formulas):
    """ formulas, with the axioms of the auxiliary variables that matter for them """
    out = []
    seen = set()
    todo = list(formulas)
    added = set()
    while todo:
        stack = [todo.pop()]
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = e.decl().name()
                    if n in CTX.defax and n not in added:
                        added.add(n)
                        out += CTX.defax[n]
                        todo += CTX.defax[n]
            else:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = e.decl().name()
                    if n == 'MUL':  # instances of commutativity
                        a, b = e.children()
                        if not a.eq(b):
                            out.append(e == uf('MUL', 2)(b, a))
                    elif n == 'SQRT':
                        out.append(z3.Implies(e.arg(0) >= 0, e >= 0))
                stack += e.children()
    return out + list(formulas)

# ----------------------------------------------------------------- booleans

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def isb(x):
    return x is True or x is False or isinstance(x, (bool, np.bool_))


def zb(x):
    if isb(x):
        return TRUE if x else FALSE
    return x


def Not(a):
    if isb(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*args):
    out = []
    seen = set()
    for a in args:
        if isb(a):
            if not a:
                return False
            continue
        i = a.get_id()
        if i not in seen:
            seen.add(i)
            out.append(a)
    for a in out:
        if z3.is_not(a) and a.arg(0).get_id() in seen:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*args):
    out = []
    seen = set()
    for a in args:
        if isb(a):
            if a:
                return True
            continue
        i = a.get_id()
        if i not in seen:
            seen.add(i)
            out.append(a)
    for a in out:
        if z3.is_not(a) and a.arg(0).get_id() in seen:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def all_(it):
    return And(*it)


def any_(it):
    return Or(*it)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isb(a):
        return b if a else Not(b)
    if isb(b):
        return a if b else Not(a)
    if a.eq(b):
        return True
    return a == b


def Xor(a, b):
    return Not(Iff(a, b))


def BIte(c, a, b):
    if isb(c):
        return a if c else b
    if isb(a) and isb(b):
        if bool(a) == bool(b):
            return bool(a)
        return c if a else Not(c)
    if isb(a):
        return Or(c, b) if a else And(Not(c), b)
    if isb(b):
        return Or(Not(c), a) if b else And(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ----------------------------------------------------------------- integers


class IV:
    """Symbolic machine integer: bit-vector and interval of the represented value."""
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def __repr__(self):
        return f'IV({self.e}, {self.lo}, {self.hi})'


_BV = {}


def bvval(v, w):
    k = (v, w)
    r = _BV.get(k)
    if r is None:
        r = _BV[k] = z3.BitVecVal(v, w)
    return r


class DT:
    """dtype information"""
    _cache = {}

    def __new__(cls, dtype):
        dtype = np.dtype(dtype) if not isinstance(dtype, DT) else dtype
        if isinstance(dtype, DT):
            return dtype
        self = cls._cache.get(dtype)
        if self is None:
            self = object.__new__(cls)
            self.np = dtype
            self.kind = dtype.kind if dtype.kind in 'biuf' else 'f' if 'float' in dtype.name else dtype.kind
            self.w = dtype.itemsize * 8
            self.signed = self.kind == 'i'
            if self.kind == 'i':
                self.min, self.max = -2 ** (self.w - 1), 2 ** (self.w - 1) - 1
            elif self.kind == 'u':
                self.min, self.max = 0, 2 ** self.w - 1
            cls._cache[dtype] = self
        return self


def wrap(v, dt):
    v &= (1 << dt.w) - 1
    if dt.signed and v >> (dt.w - 1):
        v -= 1 << dt.w
    return v


def ibv(x, dt):
    return bvval(x, dt.w) if not isinstance(x, IV) else x.e


def irange(x):
    return (x.lo, x.hi) if isinstance(x, IV) else (x, x)


def mkiv(e, lo, hi, dt):
    if lo < dt.min or hi > dt.max:
        lo, hi = dt.min, dt.max
    if lo == hi:
        return lo
    return IV(e, lo, hi)


def i_add(a, b, dt):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return wrap(a + b, dt)
    if not isinstance(a, IV) and a == 0:
        return b
    if not isinstance(b, IV) and b == 0:
        return a
    (al, ah), (bl, bh) = irange(a), irange(b)
    return mkiv(ibv(a, dt) + ibv(b, dt), al + bl, ah + bh, dt)


def i_sub(a, b, dt):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return wrap(a - b, dt)
    if not isinstance(b, IV) and b == 0:
        return a
    (al, ah), (bl, bh) = irange(a), irange(b)
    return mkiv(ibv(a, dt) - ibv(b, dt), al - bh, ah - bl, dt)


def i_mul(a, b, dt):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return wrap(a * b, dt)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, IV):
            if x == 0:
                return 0
            if x == 1:
                return y
    (al, ah), (bl, bh) = irange(a), irange(b)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    return mkiv(ibv(a, dt) * ibv(b, dt), min(c), max(c), dt)


def i_neg(a, dt):
    return i_sub(0, a, dt)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def i_div(a, b, dt):
    """ XLA integer division: truncates; x / 0 = -1 (all ones), min / -1 = min """
    if not isinstance(a, IV) and not isinstance(b, IV):
        if b == 0:
            return wrap(-1, dt)
        return wrap(tdiv(a, b), dt)
    if not isinstance(b, IV) and b == 1:
        return a
    (al, ah), (bl, bh) = irange(a), irange(b)
    if not isinstance(b, IV) and b > 0 and b & (b - 1) == 0 and al >= 0:
        return i_shift('rl', a, b.bit_length() - 1, dt)
    ea, eb = ibv(a, dt), ibv(b, dt)
    if dt.signed:
        if al >= 0 and bl > 0:
            e = z3.UDiv(ea, eb)
        else:
            e = ea / eb
            if bl <= 0 <= bh:
                e = z3.If(eb == 0, bvval(-1, dt.w), e)
    else:
        e = z3.UDiv(ea, eb)
    if bl > 0:
        c = [tdiv(x, y) for x in (al, ah) for y in (bl, bh)]
        if al <= 0 <= ah:
            c.append(0)
        return mkiv(e, min(c), max(c), dt)
    return mkiv(e, dt.min, dt.max, dt)


def i_rem(a, b, dt):
    """ XLA remainder: sign of the dividend; x rem 0 = x """
    if not isinstance(a, IV) and not isinstance(b, IV):
        if b == 0:
            return a
        return a - b * tdiv(a, b)
    (al, ah), (bl, bh) = irange(a), irange(b)
    if bl > 0 and al >= 0 and ah < bl:
        return a
    ea, eb = ibv(a, dt), ibv(b, dt)
    if dt.signed and not (al >= 0 and bl > 0):
        e = z3.SRem(ea, eb)
    else:
        e = z3.URem(ea, eb)
    if bl > 0:
        m = bh - 1
        return mkiv(e, max(-m, al) if al < 0 else 0, max(0, min(m, ah)), dt)
    return mkiv(e, dt.min, dt.max, dt)


def i_cmp(op, a, b, dt):
    """ op in 'eq', 'ne', 'lt', 'le', 'gt', 'ge' """
    if not isinstance(a, IV) and not isinstance(b, IV):
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
    if op == 'gt':
        return i_cmp('lt', b, a, dt)
    if op == 'ge':
        return i_cmp('le', b, a, dt)
    if op == 'ne':
        return Not(i_cmp('eq', a, b, dt))
    (al, ah), (bl, bh) = irange(a), irange(b)
    ea, eb = ibv(a, dt), ibv(b, dt)
    if op == 'eq':
        if ah < bl or bh < al:
            return False
        if ea.eq(eb):
            return True
        return ea == eb
    if op == 'lt':
        if ah < bl:
            return True
        if al >= bh:
            return False
        if ea.eq(eb):
            return False
        if dt.signed and not (al >= 0 and bl >= 0):
            return ea < eb
        return z3.ULT(ea, eb)
    if op == 'le':
        if ah <= bl:
            return True
        if al > bh:
            return False
        if ea.eq(eb):
            return True
        if dt.signed and not (al >= 0 and bl >= 0):
            return ea <= eb
        return z3.ULE(ea, eb)
    raise Unsupported(op)


def i_ite(c, a, b, dt):
    if isb(c):
        return a if c else b
    if not isinstance(a, IV) and not isinstance(b, IV) and a == b:
        return a
    ea, eb = ibv(a, dt), ibv(b, dt)
    if ea.eq(eb):
        return a
    (al, ah), (bl, bh) = irange(a), irange(b)
    return IV(z3.If(c, ea, eb), min(al, bl), max(ah, bh))


def i_min(a, b, dt):
    (al, ah), (bl, bh) = irange(a), irange(b)
    if ah <= bl:
        return a
    if bh <= al:
        return b
    r = i_ite(i_cmp('le', a, b, dt), a, b, dt)
    return mkiv(r.e, min(al, bl), min(ah, bh), dt) if isinstance(r, IV) else r


def i_max(a, b, dt):
    (al, ah), (bl, bh) = irange(a), irange(b)
    if ah <= bl:
        return b
    if bh <= al:
        return a
    r = i_ite(i_cmp('le', a, b, dt), b, a, dt)
    return mkiv(r.e, max(al, bl), max(ah, bh), dt) if isinstance(r, IV) else r


def i_and(a, b, dt):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return wrap(a & b, dt)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, IV):
            if x == 0:
                return 0
            if x == -1 or x == (1 << dt.w) - 1:
                return y
    (al, ah), (bl, bh) = irange(a), irange(b)
    lo, hi = dt.min, dt.max
    if al >= 0 and bl >= 0:
        lo, hi = 0, min(ah, bh)
    elif al >= 0:
        lo, hi = 0, ah
    elif bl >= 0:
        lo, hi = 0, bh
    return mkiv(ibv(a, dt) & ibv(b, dt), lo, hi, dt)


def i_or(a, b, dt):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return wrap(a | b, dt)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, IV) and x == 0:
            return y
    (al, ah), (bl, bh) = irange(a), irange(b)
    lo, hi = dt.min, dt.max
    if al >= 0 and bl >= 0:
        lo, hi = max(al, bl), (1 << max(ah.bit_length(), bh.bit_length())) - 1
    return mkiv(ibv(a, dt) | ibv(b, dt), lo, hi, dt)


def i_xor(a, b, dt):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return wrap(a ^ b, dt)
    (al, ah), (bl, bh) = irange(a), irange(b)
    lo, hi = dt.min, dt.max
    if al >= 0 and bl >= 0:
        lo, hi = 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1
    return mkiv(ibv(a, dt) ^ ibv(b, dt), lo, hi, dt)


def i_not(a, dt):
    if not isinstance(a, IV):
        return wrap(~a, dt)
    lo, hi = (-1 - a.hi, -1 - a.lo) if dt.signed else (dt.max - a.hi, dt.max - a.lo)
    return mkiv(~a.e, lo, hi, dt)


def i_shift(kind, a, s, dt):
    """ kind 'l', 'ra', 'rl'; XLA: shift >= width gives 0 (or sign) """
    w = dt.w
    if not isinstance(a, IV) and not isinstance(s, IV):
        su = s & ((1 << w) - 1)
        if kind == 'l':
            return wrap(a << su, dt) if su < w else 0
        if kind == 'ra':
            if dt.signed:
                return a >> min(su, w - 1)
            # arithmetic shift of an unsigned pattern
            v = a - (1 << w) if a >> (w - 1) else a
            return wrap(v >> min(su, w - 1), dt)
        u = a & ((1 << w) - 1)
        return wrap(u >> su, dt) if su < w else 0
    (al, ah) = irange(a)
    ea, es = ibv(a, dt), ibv(s, dt)
    lo, hi = dt.min, dt.max
    if not isinstance(s, IV) and 0 <= s < w:
        if kind == 'l':
            lo, hi = al << s, ah << s
        elif kind == 'ra' and dt.signed:
            lo, hi = al >> s, ah >> s
        elif kind == 'rl' and al >= 0:
            lo, hi = al >> s, ah >> s
    elif kind == 'l' and al >= 0 and irange(s)[0] >= 0 and irange(s)[1] < w:
        lo, hi = 0, ah << irange(s)[1]
    e = {'l': lambda: ea << es, 'ra': lambda: ea >> es, 'rl': lambda: z3.LShR(ea, es)}[kind]()
    return mkiv(e, lo, hi, dt)


def i_convert(a, src, dst):
    """ integer to integer conversion (wraps) """
    if not isinstance(a, IV):
        return wrap(a, dst)
    if dst.w == src.w:
        e = a.e
    elif dst.w < src.w:
        e = z3.Extract(dst.w - 1, 0, a.e)
    elif src.signed and a.lo < 0:
        e = z3.SignExt(dst.w - src.w, a.e)
    else:
        e = z3.ZeroExt(dst.w - src.w, a.e)
    return mkiv(e, a.lo, a.hi, dst)


def b2i(b, dt):
    if isb(b):
        return int(b)
    return IV(z3.If(b, bvval(1, dt.w), bvval(0, dt.w)), 0, 1)


def ivar(name, dt, lo=None, hi=None):
    """ new symbolic integer; bounds are added to the axioms """
    dt = DT(dt)
    v = z3.BitVec(name, dt.w)
    lo = dt.min if lo is None else lo
    hi = dt.max if hi is None else hi
    if lo == hi:
        return lo
    if name in CTX.fixed:
        f = wrap(int(CTX.fixed[name]), dt)
        if lo <= f <= hi:
            return f
    x = IV(v, dt.min, dt.max)
    if lo > dt.min:
        CTX.axioms.append(zb(i_cmp('ge', x, lo, dt)))
    if hi < dt.max:
        CTX.axioms.append(zb(i_cmp('le', x, hi, dt)))
    return IV(v, lo, hi)


# ------------------------------------------------------------------- floats


class RV:
    """Real-valued symbolic float (exact arithmetic)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'RV({self.e})'


class LV:
    """r + log(m) / q, with r real, m > 0 real, q positive integer."""
    __slots__ = ('r', 'm', 'q')

    def __init__(self, r, m, q):
        self.r, self.m, self.q = r, m, q

    def __repr__(self):
        return f'LV({self.r} + log({self.m})/{self.q})'


class FV:
    """IEEE floating point symbolic value."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class UN:
    """Guarded union: list of (guard, value), guards exclusive and exhaustive."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


def isconcf(x):
    return not isinstance(x, (RV, LV, FV, UN))


def isspecial(x):
    return isconcf(x) and not np.isfinite(x)


_RVAL = {}


def rval(x):
    """ exact rational z3 value of a concrete number """
    if isinstance(x, Fraction):
        f = x
    else:
        f = Fraction(float(x))
    r = _RVAL.get(f)
    if r is None:
        r = _RVAL[f] = z3.RealVal(str(f))
    return r


def isrv0(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def frac(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


LOG = z3.Function('LOG', z3.RealSort(), z3.RealSort())
_UFS = {}


def uf(name, arity=1, sort=None):
    sort = sort or z3.RealSort()
    k = (name, arity)
    if k not in _UFS:
        _UFS[k] = z3.Function(name, *([z3.RealSort()] * arity), sort)
    return _UFS[k]


def r_add(a, b):
    if z3.is_rational_value(a):
        if z3.is_rational_value(b):
            return rval(frac(a) + frac(b))
        if isrv0(a):
            return b
    elif isrv0(b):
        return a
    return a + b


def r_neg(a):
    if z3.is_rational_value(a):
        return rval(-frac(a))
    return -a


def r_sub(a, b):
    if isrv0(b):
        return a
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return rval(frac(a) - frac(b))
    if a.eq(b):
        return rval(0)
    return a - b


def r_mul(a, b):
    ca, cb = z3.is_rational_value(a), z3.is_rational_value(b)
    if ca and cb:
        return rval(frac(a) * frac(b))
    if cb:
        a, b, ca, cb = b, a, cb, ca
    if ca:
        f = frac(a)
        if f == 0:
            return a
        if f == 1:
            return b
        z = zero_cond(b)
        if z is not False:
            return z3.If(z, rval(0), a * b)
        return a * b
    for x, y in ((a, b), (b, a)):
        z = zero_cond(x)
        if z is not False:
            return z3.If(z, rval(0), _r_mul(a, b))
    return _r_mul(a, b)


def _r_mul(a, b):
    if CTX.nonlin == 'uf':
        if a.get_id() > b.get_id():
            a, b = b, a
        return uf('MUL', 2)(a, b)
    return a * b


def zero_cond(e, depth=6):
    """ condition under which a tree of ites is literally 0 (False if it can't be) """
    if isrv0(e):
        return True
    if depth and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = e.children()
        zx, zy = zero_cond(x, depth - 1), zero_cond(y, depth - 1)
        return BIte(c, zx, zy)
    return False


def r_div(a, b):
    if z3.is_rational_value(b) and frac(b) != 0:
        return r_mul(a, rval(1 / frac(b)))
    if isrv0(a) and CTX.nonlin != 'uf':
        return z3.If(b == 0, uf('DIV0', 1)(a), rval(0))
    if CTX.nonlin == 'uf':
        return uf('DIV', 2)(a, b)
    return a / b


def r_ite(c, a, b):
    if isb(c):
        return a if c else b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def r_pow(a, n):
    r = a
    for _ in range(n - 1):
        r = r_mul(r, a)
    return r


# --- conversions between float representations

FPS = {16: z3.FPSort(5, 11), 32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53)}
RNE = z3.RNE()


def fpval(x, dt):
    s = FPS[dt.w]
    x = float(x)
    if math.isnan(x):
        return z3.fpNaN(s)
    if math.isinf(x):
        return z3.fpPlusInfinity(s) if x > 0 else z3.fpMinusInfinity(s)
    return z3.FPVal(x, s)


def npf(x, dt):
    """ round to the concrete dtype """
    return dt.np.type(x)


def to_real(x, dt):
    """ z3 Real expression of a float cell (finite part); LV is materialized """
    if isinstance(x, RV):
        return x.e
    if isinstance(x, LV):
        l = LOG(x.m)
        return r_add(x.r, r_mul(rval(Fraction(1, x.q)), l))
    if isinstance(x, UN):
        r = None
        for g, v in reversed(x.alts):
            e = to_real(v, dt)
            r = e if r is None else r_ite(g, e, r)
        return r
    if isinstance(x, FV):
        return z3.fpToReal(x.e)
    if not np.isfinite(x):
        # a special value squeezed into a real: arbitrary number
        return poison()
    return rval(x)


def poison():
    return CTX.fresh('poison', z3.RealSort())


def to_fp(x, dt):
    if isinstance(x, FV):
        return x.e
    if isinstance(x, UN):
        r = None
        for g, v in reversed(x.alts):
            e = to_fp(v, dt)
            r = e if r is None else z3.If(g, e, r)
        return r
    if isinstance(x, (RV, LV)):
        raise Unsupported('real cell in floating point mode')
    return fpval(x, dt)


def norm_union(alts, dt):
    """ merge alternatives; returns a cell """
    acc = {}
    order = []
    sym = []
    for g, v in alts:
        if g is False:
            continue
        if isinstance(v, UN):
            for g2, v2 in v.alts:
                gg = And(g, g2)
                if gg is False:
                    continue
                if isconcf(v2):
                    _acc(acc, order, gg, v2, dt)
                else:
                    sym.append((gg, v2))
        elif isconcf(v):
            _acc(acc, order, g, v, dt)
        else:
            sym.append((g, v))
    conc = [(acc[k][0], acc[k][1]) for k in order]
    if CTX.float_mode == 'fp':
        if not sym and len(conc) <= CTX.union_cap:
            return conc[0][1] if len(conc) == 1 else UN(conc)
        allalts = sym + conc
        e = None
        for g, v in reversed(allalts):
            f = to_fp(v, dt)
            e = f if e is None else z3.If(zb(g), f, e)
        return FV(e)
    if not sym:
        if len(conc) == 1:
            return conc[0][1]
        if len(conc) <= CTX.union_cap:
            return UN(conc)
    fin = sym + [(g, v) for g, v in conc if np.isfinite(v)]
    spec = [(g, v) for g, v in conc if not np.isfinite(v)]
    if fin:
        cell = fin[-1][1]
        cell = RV(rval(cell)) if isconcf(cell) else cell
        for g, v in reversed(fin[:-1]):
            cell = _sym_ite(g, v, cell, dt)
        if not spec:
            return cell
        return UN([(any_([g for g, _ in fin]), cell)] + spec)
    return spec[0][1] if len(spec) == 1 else UN(spec)


def _acc(acc, order, g, v, dt):
    v = npf(v, dt)
    k = 'nan' if np.isnan(v) else float(v) if v != 0 else 0.0
    if k in acc:
        acc[k] = (Or(acc[k][0], g), acc[k][1])
    else:
        acc[k] = (g, v)
        order.append(k)


def aslv(x, dt):
    if isinstance(x, LV):
        return x
    return LV(to_real(x, dt), rval(1), 1)


def unify_q(a, b):
    if a.q == b.q:
        return a, b
    q = a.q * b.q // math.gcd(a.q, b.q)
    f = lambda x: LV(x.r, r_pow(x.m, q // x.q), q)
    return f(a), f(b)


def _sym_ite(c, a, b, dt):
    """ ite between non-special, non-union cells """
    if isb(c):
        return a if c else b
    if isinstance(a, LV) or isinstance(b, LV):
        a, b = unify_q(aslv(a, dt), aslv(b, dt))
        return LV(r_ite(c, a.r, b.r), r_ite(c, a.m, b.m), a.q)
    return RV(r_ite(c, to_real(a, dt), to_real(b, dt)))


def f_ite(c, a, b, dt):
    if isb(c):
        return a if c else b
    if a is b:
        return a
    if isconcf(a) and isconcf(b) and (a == b or (a != a and b != b)):
        return a
    if isinstance(a, RV) and isinstance(b, RV):
        return a if a.e.eq(b.e) else RV(z3.If(c, a.e, b.e))
    return norm_union([(c, a), (Not(c), b)], dt)


def lift1(fconc, fsym, a, dt):
    if isconcf(a):
        return npf(fconc(a), dt)
    if isinstance(a, UN):
        return norm_union([(g, lift1(fconc, fsym, v, dt)) for g, v in a.alts], dt)
    return fsym(a)


def lift2(fconc, fsym, a, b, dt, out='f'):
    """ distribute a binary operation over unions """
    if isconcf(a) and isconcf(b):
        with np.errstate(all='ignore'):
            r = fconc(a, b)
        return bool(r) if out == 'b' else npf(r, dt)
    ua, ub = isinstance(a, UN), isinstance(b, UN)
    if ua or ub:
        if CTX.float_mode == 'fp' and (isinstance(a, FV) or isinstance(b, FV)):
            return fsym(a, b)
        alts = []
        for g1, v1 in (a.alts if ua else [(True, a)]):
            for g2, v2 in (b.alts if ub else [(True, b)]):
                g = And(g1, g2)
                if g is False:
                    continue
                alts.append((g, lift2(fconc, fsym, v1, v2, dt, out)))
        if out == 'b':
            return any_([And(g, v) for g, v in alts])
        return norm_union(alts, dt)
    return fsym(a, b)


def f_add(a, b, dt):
    def sym(a, b):
        if CTX.float_mode == 'fp':
            return FV(z3.fpAdd(RNE, to_fp(a, dt), to_fp(b, dt)))
        for x, y in ((a, b), (b, a)):
            if isconcf(x):
                if not np.isfinite(x):
                    return x
                if x == 0:
                    return y
        if isinstance(a, LV) or isinstance(b, LV):
            a, b = unify_q(aslv(a, dt), aslv(b, dt))
            return LV(r_add(a.r, b.r), r_mul_pos(a.m, b.m), a.q)
        return RV(r_add(to_real(a, dt), to_real(b, dt)))
    return lift2(lambda a, b: a + b, sym, a, b, dt)


def r_mul_pos(a, b):
    # product inside logs is kept exact also in 'uf' mode (it is compared, not evaluated)
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return rval(frac(a) * frac(b))
    if z3.is_rational_value(a) and frac(a) == 1:
        return b
    if z3.is_rational_value(b) and frac(b) == 1:
        return a
    return r_mul(a, b)


def f_neg(a, dt):
    def sym(a):
        if CTX.float_mode == 'fp':
            return FV(z3.fpNeg(to_fp(a, dt)))
        if isinstance(a, LV):
            return LV(r_neg(a.r), r_div(rval(1), a.m), a.q)
        return RV(r_neg(to_real(a, dt)))
    return lift1(lambda x: -x, sym, a, dt)


def f_sub(a, b, dt):
    def sym(a, b):
        if CTX.float_mode == 'fp':
            return FV(z3.fpSub(RNE, to_fp(a, dt), to_fp(b, dt)))
        if isinstance(a, LV) or isinstance(b, LV):
            if isspecial(a):
                return a
            if isspecial(b):
                return -b
            return f_add(a, f_neg(b, dt), dt)
        if isconcf(a) and not np.isfinite(a):
            return a
        if isconcf(b) and not np.isfinite(b):
            return -b
        return RV(r_sub(to_real(a, dt), to_real(b, dt)))
    return lift2(lambda a, b: a - b, sym, a, b, dt)


def f_mul(a, b, dt):
    def sym(a, b):
        if CTX.float_mode == 'fp':
            return FV(z3.fpMul(RNE, to_fp(a, dt), to_fp(b, dt)))
        for x, y in ((a, b), (b, a)):
            if isconcf(x):
                if np.isnan(x):
                    return x
                if np.isinf(x):
                    e = to_real(y, dt)
                    return norm_union([(zb(e > 0), x), (zb(e < 0), -x), (zb(e == 0), npf(np.nan, dt))], dt)
                if x == 0:
                    return npf(0, dt)
                if x == 1:
                    return y
                if isinstance(y, LV):
                    f = Fraction(float(x)).limit_denominator(10 ** 6)
                    if f == Fraction(float(x)) and abs(f.numerator) <= 4 and f.denominator <= 4:
                        z = y if f > 0 else f_neg(y, dt)
                        return LV(r_mul(rval(abs(f)), z.r), r_pow(z.m, abs(f.numerator)), z.q * f.denominator)
        return RV(r_mul(to_real(a, dt), to_real(b, dt)))
    return lift2(lambda a, b: a * b, sym, a, b, dt)


def f_div(a, b, dt):
    def sym(a, b):
        if CTX.float_mode == 'fp':
            if isconcf(b) and b != 0 and np.isfinite(b) and math.frexp(float(b))[0] in (0.5, -0.5):
                # division by a power of two: same rounding as multiplication by the inverse
                inv = 1 / float(b)
                if math.isfinite(inv):
                    return FV(z3.fpMul(RNE, to_fp(a, dt), fpval(inv, dt)))
            return FV(z3.fpDiv(RNE, to_fp(a, dt), to_fp(b, dt)))
        if isconcf(b):
            if np.isnan(b):
                return b
            if np.isinf(b):
                return npf(0, dt)
            if b == 0:
                e = to_real(a, dt)
                inf = npf(np.inf if not np.signbit(b) else -np.inf, dt)
                return norm_union([(zb(e > 0), inf), (zb(e < 0), -inf), (zb(e == 0), npf(np.nan, dt))], dt)
            f = Fraction(float(b))
            if isinstance(a, LV) and f.denominator == 1 and abs(f) <= 4:
                z = a if f > 0 else f_neg(a, dt)
                return LV(r_mul(rval(1 / abs(f)), z.r), z.m, z.q * abs(int(f)))
            return RV(r_mul(to_real(a, dt), rval(1 / f)))
        if isconcf(a) and not np.isfinite(a):
            return RV(poison()) if np.isinf(a) else a
        return RV(r_div(to_real(a, dt), to_real(b, dt)))
    return lift2(lambda a, b: a / b, sym, a, b, dt)


def f_rem(a, b, dt):
    def sym(a, b):
        raise Unsupported('float remainder')
    return lift2(np.fmod, sym, a, b, dt)


_NPC = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b,
        'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def f_cmp(op, a, b, dt):
    def sym(a, b):
        if CTX.float_mode == 'fp':
            fa, fb = to_fp(a, dt), to_fp(b, dt)
            if CTX.rank:
                ra, rb = CTX.rank.get(fa.get_id()), CTX.rank.get(fb.get_id())
                if ra and rb:
                    return bool(_NPC[op](ra[0], rb[0]))
            return {'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT,
                    'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[op](fa, fb)
        for x, y, o in ((a, b, op), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op))):
            if isconcf(x) and not np.isfinite(x):  # y is a finite symbolic value
                if np.isnan(x):
                    return o == 'ne'
                return bool(_NPC[o](float(x), 0.0))
        log = isinstance(a, LV) or isinstance(b, LV)
        ea, eb = to_real(a, dt), to_real(b, dt)
        if ea.eq(eb):
            return op in ('eq', 'le', 'ge')
        if CTX.cutlog and log and op in ('le', 'lt', 'ge', 'gt'):
            k = ('cmp', op, ea.get_id(), eb.get_id())
            if k not in CTX._cache:
                v = CTX.fresh('cmp', z3.BoolSort())
                CTX.defs[v.decl().name()] = (lambda x, y: bool(_NPC[op](float(x), float(y))), (ea, eb))
                CTX._cache[k] = (v, ea, eb)
                CTX.cuts.append((v, op, a, b))
            return CTX._cache[k][0]
        return {'eq': lambda: ea == eb, 'ne': lambda: ea != eb, 'lt': lambda: ea < eb,
                'le': lambda: ea <= eb, 'gt': lambda: ea > eb, 'ge': lambda: ea >= eb}[op]()
    r = lift2(_NPC[op], sym, a, b, dt, out='b')
    return r


def f_isnan(a):
    if isconcf(a):
        return bool(np.isnan(a))
    if isinstance(a, UN):
        return any_([And(g, f_isnan(v)) for g, v in a.alts])
    if isinstance(a, FV):
        return z3.fpIsNaN(a.e)
    return False


def f_isfinite(a):
    if isconcf(a):
        return bool(np.isfinite(a))
    if isinstance(a, UN):
        return any_([And(g, f_isfinite(v)) for g, v in a.alts])
    if isinstance(a, FV):
        return Not(Or(z3.fpIsNaN(a.e), z3.fpIsInf(a.e)))
    return True


def f_max(a, b, dt):
    """ NaN-propagating maximum """
    if isconcf(a) and isconcf(b):
        return npf(np.maximum(a, b), dt)
    na, nb = f_isnan(a), f_isnan(b)
    r = f_ite(f_cmp('ge', a, b, dt), a, b, dt)
    if nb is not False:
        r = f_ite(nb, b, r, dt)
    if na is not False:
        r = f_ite(na, a, r, dt)
    return r


def f_min(a, b, dt):
    if isconcf(a) and isconcf(b):
        return npf(np.minimum(a, b), dt)
    na, nb = f_isnan(a), f_isnan(b)
    r = f_ite(f_cmp('le', a, b, dt), a, b, dt)
    if nb is not False:
        r = f_ite(nb, b, r, dt)
    if na is not False:
        r = f_ite(na, a, r, dt)
    return r


def f_abs(a, dt):
    def sym(a):
        if CTX.float_mode == 'fp':
            return FV(z3.fpAbs(to_fp(a, dt)))
        e = to_real(a, dt)
        return RV(z3.If(e >= 0, e, -e))
    return lift1(np.abs, sym, a, dt)


def f_sign(a, dt):
    def sym(a):
        if CTX.float_mode == 'fp':
            z = fpval(0, dt)
            return FV(z3.If(z3.fpGT(a.e, z), fpval(1, dt), z3.If(z3.fpLT(a.e, z), fpval(-1, dt), a.e)))
        e = to_real(a, dt)
        return norm_union([(e > 0, npf(1, dt)), (e < 0, npf(-1, dt)), (e == 0, npf(0, dt))], dt)
    return lift1(np.sign, sym, a, dt)


def f_sqrt(a, dt):
    def sym(a):
        if CTX.float_mode == 'fp':
            return FV(z3.fpSqrt(RNE, to_fp(a, dt)))
        e = to_real(a, dt)
        if CTX.nonlin == 'uf':
            return RV(uf('SQRT')(e))
        k = ('sqrt', e.get_id())
        if k not in CTX._cache:
            s = CTX.fresh('sqrt', z3.RealSort())
            CTX.defax.setdefault(s.decl().name(), []).append(z3.Implies(e >= 0, z3.And(s >= 0, s * s == e)))
            CTX.defs[s.decl().name()] = ('sqrt', (e,))
            CTX._cache[k] = (RV(s), e)
        return CTX._cache[k][0]
    return lift1(np.sqrt, sym, a, dt)


def f_rsqrt(a, dt):
    return f_div(npf(1, dt), f_sqrt(a, dt), dt)


def f_log(a, dt):
    def sym(a):
        if CTX.float_mode == 'fp':
            raise Unsupported('log in floating point mode')
        e = to_real(a, dt)
        z = zero_cond(e)
        if z is not False:
            return norm_union([(Not(z), LV(rval(0), e, 1)), (z, npf(-np.inf, dt))], dt)
        return LV(rval(0), e, 1)
    with np.errstate(all='ignore'):
        return lift1(np.log, sym, a, dt)


def f_log1p(a, dt):
    if isconcf(a):
        return npf(np.log1p(a), dt)
    return f_log(f_add(npf(1, dt), a, dt), dt)


def f_ufun(name, npfun, a, dt):
    def sym(a):
        if CTX.float_mode == 'fp':
            raise Unsupported(name + ' in floating point mode')
        return RV(uf(name.upper())(to_real(a, dt)))
    with np.errstate(all='ignore'):
        return lift1(npfun, sym, a, dt)


def f_exp(a, dt):
    def sym(a):
        if CTX.float_mode == 'fp':
            raise Unsupported('exp in floating point mode')
        if isinstance(a, LV) and a.q == 1:
            if isrv0(a.r):
                return RV(a.m)
            return RV(r_mul(a.m, uf('EXP')(a.r)))
        return RV(uf('EXP')(to_real(a, dt)))
    with np.errstate(all='ignore'):
        return lift1(np.exp, sym, a, dt)


def f_ipow(a, n, dt):
    if n == 0:
        return npf(1, dt)
    if isconcf(a):
        return npf(a ** n if n > 0 else npf(1, dt) / a ** (-n), dt)
    if n < 0:
        return f_div(npf(1, dt), f_ipow(a, -n, dt), dt)
    r = a
    for _ in range(n - 1):
        r = f_mul(r, a, dt)
    return r


def f_floor(a, dt):
    def sym(a):
        if CTX.float_mode == 'fp':
            return FV(z3.fpRoundToIntegral(z3.RTN(), a.e))
        return RV(z3.ToReal(z3.ToInt(to_real(a, dt))))
    return lift1(np.floor, sym, a, dt)


def f_ceil(a, dt):
    return f_neg(f_floor(f_neg(a, dt), dt), dt)


def f_round_even(a, dt):
    def sym(a):
        if CTX.float_mode == 'fp':
            return FV(z3.fpRoundToIntegral(RNE, a.e))
        e = to_real(a, dt)
        fl = z3.ToInt(e)
        d = e - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        up = z3.Or(d > half, z3.And(d == half, fl % 2 == 1))
        return RV(z3.ToReal(z3.If(up, fl + 1, fl)))
    return lift1(np.round, sym, a, dt)


def f_round_away(a, dt):
    def conc(x):
        return np.copysign(np.floor(np.abs(x) + npf(.5, dt)), x)
    def sym(a):
        if CTX.float_mode == 'fp':
            return FV(z3.fpRoundToIntegral(z3.RNA(), a.e))
        e = to_real(a, dt)
        return RV(z3.ToReal(z3.If(e >= 0, z3.ToInt(e + z3.RealVal('1/2')), -z3.ToInt(-e + z3.RealVal('1/2')))))
    return lift1(conc, sym, a, dt)


def i2f(a, src, dst):
    """ integer cell to float cell """
    if not isinstance(a, IV):
        return npf(a, dst)
    if a.hi - a.lo <= CTX.union_cap:
        return norm_union([(i_cmp('eq', a, v, src), npf(v, dst)) for v in range(a.lo, a.hi + 1)], dst)
    if CTX.float_mode == 'fp':
        f = z3.fpSignedToFP if src.signed else z3.fpUnsignedToFP
        return FV(f(RNE, a.e, FPS[dst.w]))
    return RV(z3.ToReal(z3.BV2Int(a.e, src.signed)))


def b2f(b, dst):
    if isb(b):
        return npf(int(b), dst)
    return norm_union([(b, npf(1, dst)), (Not(b), npf(0, dst))], dst)


def f2i(a, src, dst):
    """ float to int conversion (truncation, saturating) """
    if isconcf(a):
        if np.isnan(a):
            return 0
        if np.isinf(a):
            return dst.max if a > 0 else dst.min
        return min(max(int(a), dst.min), dst.max)
    if isinstance(a, UN):
        r = None
        for g, v in reversed(a.alts):
            x = f2i(v, src, dst)
            r = x if r is None else i_ite(g, x, r, dst)
        return r
    if isinstance(a, FV):
        f = z3.fpToSBV if dst.signed else z3.fpToUBV
        lo, hi = fpval(dst.min, src), fpval(dst.max, src)
        e = f(z3.RTZ(), a.e, z3.BitVecSort(dst.w))
        e = z3.If(z3.fpGEQ(a.e, hi), bvval(dst.max, dst.w), z3.If(z3.fpLEQ(a.e, lo), bvval(dst.min, dst.w), e))
        return IV(z3.If(z3.fpIsNaN(a.e), bvval(0, dst.w), e), dst.min, dst.max)
    e = to_real(a, src)
    n = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
    n = z3.If(n > dst.max, z3.IntVal(dst.max), z3.If(n < dst.min, z3.IntVal(dst.min), n))
    return IV(z3.Int2BV(n, dst.w), dst.min, dst.max)


def f2b(a, src):
    return f_cmp('ne', a, npf(0, src), src)


def f2f(a, src, dst):
    if isconcf(a):
        return npf(a, dst)
    if isinstance(a, UN):
        return norm_union([(g, f2f(v, src, dst)) for g, v in a.alts], dst)
    if isinstance(a, FV) and src.w != dst.w:
        return FV(z3.fpFPToFP(RNE, a.e, FPS[dst.w]))
    return a


# ----------------------------------------------------- generic cell dispatch


def c_ite(c, a, b, dt):
    if isb(c):
        return a if c else b
    if a is b:
        return a
    k = dt.kind
    if k == 'b':
        return BIte(c, a, b)
    if k in 'iu':
        return i_ite(c, a, b, dt)
    if k == 'f':
        return f_ite(c, a, b, dt)
    if k == 'k':
        return a.ite(c, b)
    raise Unsupported(f'ite on {k}')


def convert(a, src, dst):
    s, d = src.kind, dst.kind
    if s == 'b':
        if d == 'b':
            return a
        return b2i(a, dst) if d in 'iu' else b2f(a, dst)
    if s in 'iu':
        if d == 'b':
            return i_cmp('ne', a, 0, src)
        if d in 'iu':
            return i_convert(a, src, dst)
        return i2f(a, src, dst)
    if s == 'f':
        if d == 'b':
            return f2b(a, src)
        if d in 'iu':
            return f2i(a, src, dst)
        return f2f(a, src, dst)
    raise Unsupported(f'conversion {s} -> {d}')


def concrete(x):
    return not isinstance(x, (IV, RV, LV, FV, UN, z3.ExprRef)) and not getattr(x, 'symbolic_key', False)
