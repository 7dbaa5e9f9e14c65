"""
Symbolic execution of ordinary Python code: symbolic integers are proxies, every branch on them forks, and the code is run
again once per feasible path (the solver decides which paths are feasible).
"""
import math
import operator
import time

import z3

from . import solve


class Infeasible(BaseException):
    pass


class TooManyPaths(Exception):
    pass


class Explorer:

    def __init__(self, base, max_paths=2000, timeout=5000):
        self.base = list(base)
        self.max_paths = max_paths
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.solver.add(*self.base)
        self.queries = 0
        self.time = 0.

    def check(self, *fs):
        t = time.time()
        r = self.solver.check(*fs)
        self.queries += 1
        self.time += time.time() - t
        if r == z3.unknown:
            raise TooManyPaths('a branch condition was not decided')
        return r == z3.sat

    def branch(self, cond, value=None):
        if value is None:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
        if self.pos < len(self.plan):
            v = self.plan[self.pos][0]
        else:
            v = value is not None or self.check(*self.path, cond)
            if v and self.check(*self.path, z3.Not(cond)):
                self.todo.append(self.plan[:self.pos] + [(False, value)])
            self.plan.append((v, value))
        self.pos += 1
        self.path.append(cond if v else z3.Not(cond))
        return v

    def concretize(self, e):
        """ fork over the possible values """
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            # the order of the values is arbitrary but kept in the plan, such that the path can be followed again
            if self.pos < len(self.plan):
                m = self.plan[self.pos][1]
                assert m is not None, 'the code is not deterministic'
            else:
                if not self.check(*self.path):
                    raise Infeasible
                m = self.solver.model().eval(e, model_completion=True).as_long()
            if self.branch(e == m, m):
                return m

    def run(self, fn):
        """ yields (path condition, result or exception) """
        global CUR
        self.todo = [[]]
        n = 0
        while self.todo:
            self.plan, self.pos, self.path = list(self.todo.pop()), 0, []
            n += 1
            if n > self.max_paths:
                raise TooManyPaths(f'more than {self.max_paths} paths')
            prev, CUR = CUR, self
            try:
                try:
                    res = fn()
                except Infeasible:
                    continue
                except TooManyPaths:
                    raise
                except Exception as e:
                    res = e
            finally:
                CUR = prev
            yield list(self.path), res


CUR = None
PIECES = 3000


def piecewise(a, b):
    """ quotient and remainder of a non-negative number by a positive variable, as piecewise linear functions """
    lo = 1
    pieces = []
    while lo <= a:
        q = a // lo
        pieces.append((lo, q))
        lo = a // q + 1
    pieces.append((lo, 0))

    def tree(p, f):
        if len(p) == 1:
            return f(p[0][1])
        h = len(p) // 2
        return z3.If(b < p[h][0], tree(p[:h], f), tree(p[h:], f))
    return tree(pieces, z3.IntVal), tree(pieces, lambda q: a - q * b)


class SymBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __invert__(self): return SymBool(z3.Not(self.e))
    def __and__(self, o): return SymBool(z3.And(self.e, bexpr(o)))
    __rand__ = __and__
    def __or__(self, o): return SymBool(z3.Or(self.e, bexpr(o)))
    __ror__ = __or__
    def _i(self): return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __eq__(self, o): return SymBool(self.e == bexpr(o))
    __hash__ = None


def bexpr(x):
    return x.e if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def iexpr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(operator.index(x))


class SymInt:
    """ symbolic Python integer """

    root = None

    def __init__(self, e):
        self.e = e

    def _op(f, rev=False):
        def r(self, o):
            if isinstance(o, float):
                if not o.is_integer():
                    return f(float(self), o) if not rev else f(o, float(self))
                o = int(o)
            try:
                b = iexpr(o)
            except TypeError:
                return NotImplemented
            return SymInt(f(b, self.e) if rev else f(self.e, b))
        return r

    __add__, __radd__ = _op(operator.add), _op(operator.add, True)
    __sub__, __rsub__ = _op(operator.sub), _op(operator.sub, True)
    _mul, __rmul__ = _op(operator.mul), _op(operator.mul, True)
    del _op

    def __mul__(self, o):
        r = self._mul(o)
        if isinstance(o, SymInt) and o.e.eq(self.e):
            r.root = self.e
        return r

    @staticmethod
    def _divmod(a, b):
        # z3 division is Euclidean; Python rounds down: they agree for positive divisors
        if CUR.branch(b > 0):
            a = z3.simplify(a)
            if z3.is_int_value(a) and not z3.is_int_value(z3.simplify(b)) and 0 <= a.as_long() < PIECES ** 2 // 4:
                return piecewise(a.as_long(), b)
            return a / b, a % b
        if CUR.branch(b == 0):
            raise ZeroDivisionError
        q = (-a) / (-b)
        return q, a - q * b

    def __floordiv__(self, o): return SymInt(self._divmod(self.e, iexpr(o))[0])
    def __rfloordiv__(self, o): return SymInt(self._divmod(iexpr(o), self.e)[0])
    def __mod__(self, o): return SymInt(self._divmod(self.e, iexpr(o))[1])
    def __rmod__(self, o): return SymInt(self._divmod(iexpr(o), self.e)[1])
    def __divmod__(self, o): return tuple(map(SymInt, self._divmod(self.e, iexpr(o))))
    def __rdivmod__(self, o): return tuple(map(SymInt, self._divmod(iexpr(o), self.e)))
    def __neg__(self): return SymInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def _cmp(f):
        def r(self, o):
            if isinstance(o, float):
                a = z3.ToReal(self.e)
                if o in (float('inf'), float('-inf')):
                    return bool(f(0, o))
                return SymBool(f(a, z3.RealVal(repr(o)) if not o.is_integer() else z3.RealVal(int(o))))
            try:
                b = iexpr(o)
            except TypeError:
                return NotImplemented
            if self.root is not None and z3.is_int_value(b) and f not in (operator.eq, operator.ne):
                # compare the root instead of its square
                c = b.as_long()
                c -= f in (operator.lt, operator.ge)
                le = z3.BoolVal(False) if c < 0 else z3.And(self.root <= math.isqrt(c), self.root >= -math.isqrt(c))
                return SymBool(le if f in (operator.lt, operator.le) else z3.Not(le))
            return SymBool(f(self.e, b))
        return r
    __lt__, __le__, __gt__, __ge__ = _cmp(operator.lt), _cmp(operator.le), _cmp(operator.gt), _cmp(operator.ge)
    __eq__, __ne__ = _cmp(operator.eq), _cmp(operator.ne)
    del _cmp
    __hash__ = None

    def __bool__(self): return CUR.branch(self.e != 0)
    def __index__(self): return CUR.concretize(self.e)
    __int__ = __index__
    def __float__(self): return float(self.__index__())
    def __ceil__(self): return self
    def __floor__(self): return self
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __truediv__(self, o): return SymRatio(self.e, iexpr(o))
    def __rtruediv__(self, o): return SymRatio(iexpr(o), self.e)
    def __lshift__(self, o): return SymInt(self.e * 2 ** operator.index(o))
    def __rshift__(self, o): return SymInt(self.e / 2 ** operator.index(o))

    def __and__(self, o):
        """ with a non-negative number, bit by bit (two's complement) """
        m = operator.index(o)
        if m < 0:
            return NotImplemented
        r = z3.IntVal(0)
        for i in range(m.bit_length()):
            if m >> i & 1:
                r = r + self.e / 2 ** i % 2 * 2 ** i
        return SymInt(r)
    __rand__ = __and__

    def __pow__(self, n):
        r = SymInt(z3.IntVal(1))
        for _ in range(operator.index(n)):
            r = r * self
        return r

    def __rpow__(self, b):
        return b ** self.__index__()

    def bit_length(self):
        n = 0
        a = abs(self)
        while CUR.check(*CUR.path, a.e >= 2 ** n):
            n += 1
            if n > 256:
                raise TooManyPaths('bit_length')
        e = z3.IntVal(n)
        for i in reversed(range(n)):
            e = z3.If(a.e < 2 ** i, z3.IntVal(i), e)
        return SymInt(e)

    def __repr__(self): return f'SymInt({self.e})'
    def __format__(self, s): return str(self.e)


class SymRatio:
    """ quotient of integers, only to be rounded (exact, unlike float division) """

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __floor__(self): return SymInt(SymInt._divmod(self.a, self.b)[0])
    def __ceil__(self): return -SymInt(SymInt._divmod(-self.a, self.b)[0])
    def __trunc__(self):
        q = self.__floor__()
        return q if q >= 0 else self.__ceil__()
    def __int__(self): return int(self.__trunc__())
    def _cmp(f):
        def r(self, o):
            b = iexpr(o)
            s = CUR.branch(self.b > 0)
            return SymBool(f(self.a, b * self.b) if s else f(b * self.b, self.a))
        return r
    __lt__, __le__, __gt__, __ge__ = _cmp(operator.lt), _cmp(operator.le), _cmp(operator.gt), _cmp(operator.ge)
    del _cmp
