"""
Specification layer: the same formulas are evaluated on symbolic values (giving
a z3 formula) and on concrete values (giving a bool, floats within tolerance).
"""
import numpy as np

from . import cells as C
from .cells import DT
from .interp import to_cells, dt_of, mux

I64, F64 = DT('int64'), DT('float64')
And, Or, Not, Implies, Iff, all_, any_ = C.And, C.Or, C.Not, C.Implies, C.Iff, C.all_, C.any_


class N:
    """integer"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    @staticmethod
    def of(x):
        return x if isinstance(x, N) else N(int(x))

    def __add__(s, o): return N(C.i_add(s.c, N.of(o).c, I64))
    __radd__ = __add__
    def __sub__(s, o): return N(C.i_sub(s.c, N.of(o).c, I64))
    def __rsub__(s, o): return N(C.i_sub(N.of(o).c, s.c, I64))
    def __mul__(s, o): return N(C.i_mul(s.c, N.of(o).c, I64))
    __rmul__ = __mul__
    def __floordiv__(s, o): return N(C.i_div(s.c, N.of(o).c, I64))   # nonnegative operands only
    def __lt__(s, o): return C.i_cmp('lt', s.c, N.of(o).c, I64)
    def __le__(s, o): return C.i_cmp('le', s.c, N.of(o).c, I64)
    def __gt__(s, o): return C.i_cmp('gt', s.c, N.of(o).c, I64)
    def __ge__(s, o): return C.i_cmp('ge', s.c, N.of(o).c, I64)
    def __eq__(s, o): return C.i_cmp('eq', s.c, N.of(o).c, I64)
    def __ne__(s, o): return C.i_cmp('ne', s.c, N.of(o).c, I64)
    __hash__ = None

    def rng(s): return C.irange(s.c)
    def real(s): return R(C.i2f(s.c, I64, F64))
    def __repr__(s): return f'N({s.c})'


class R:
    """real number"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        if isinstance(x, N):
            return x.real()
        return R(np.float64(x))

    def __add__(s, o): return R(C.f_add(s.c, R.of(o).c, F64))
    __radd__ = __add__
    def __sub__(s, o): return R(C.f_sub(s.c, R.of(o).c, F64))
    def __rsub__(s, o): return R(C.f_sub(R.of(o).c, s.c, F64))
    def __mul__(s, o): return R(C.f_mul(s.c, R.of(o).c, F64))
    __rmul__ = __mul__
    def __truediv__(s, o): return R(C.f_div(s.c, R.of(o).c, F64))
    def __rtruediv__(s, o): return R(C.f_div(R.of(o).c, s.c, F64))
    def __neg__(s): return R(C.f_neg(s.c, F64))
    def __lt__(s, o): return C.f_cmp('lt', s.c, R.of(o).c, F64)
    def __le__(s, o): return C.f_cmp('le', s.c, R.of(o).c, F64)
    def __gt__(s, o): return C.f_cmp('gt', s.c, R.of(o).c, F64)
    def __ge__(s, o): return C.f_cmp('ge', s.c, R.of(o).c, F64)
    __eq__ = None
    __hash__ = None

    def finite(s): return C.f_isfinite(s.c)
    def log(s): return R(C.f_log(s.c, F64))
    def sqrt(s): return R(C.f_sqrt(s.c, F64))
    def __repr__(s): return f'R({s.c})'


RTOL, ATOL = 1e-3, 1e-4


def close(a, b, scale=1.0):
    """ equality of reals (exact when symbolic, within float32 tolerance when concrete) """
    a, b = R.of(a), R.of(b)
    if C.isconcf(a.c) and C.isconcf(b.c):
        x, y = float(a.c), float(b.c)
        if np.isnan(x) or np.isnan(y):
            return bool(np.isnan(x) and np.isnan(y))
        if np.isinf(x) or np.isinf(y):
            return x == y
        return bool(abs(x - y) <= ATOL * scale + RTOL * max(abs(x), abs(y)))
    return C.f_cmp('eq', a.c, b.c, F64)


def ints(x):
    dt = dt_of(x)
    c = to_cells(x)
    out = np.empty(c.shape, object)
    for i in np.ndindex(*c.shape):
        v = c[i]
        out[i] = N(C.b2i(v, I64) if dt.kind == 'b' else C.i_convert(v, dt, I64))
    return out if out.ndim else out[()]


def reals(x):
    dt = dt_of(x)
    c = to_cells(x)
    out = np.empty(c.shape, object)
    for i in np.ndindex(*c.shape):
        out[i] = R(C.f2f(c[i], dt, F64) if dt.kind == 'f' else C.convert(c[i], dt, F64))
    return out if out.ndim else out[()]


def bools(x):
    c = to_cells(x)
    return c if c.ndim else c[()]


def ite(c, a, b):
    if isinstance(a, N) or isinstance(b, N):
        return N(C.i_ite(c, N.of(a).c, N.of(b).c, I64))
    if isinstance(a, R) or isinstance(b, R):
        return R(C.f_ite(c, R.of(a).c, R.of(b).c, F64))
    return C.BIte(c, a, b)


def sel(lst, idx, lo=0):
    """ lst[idx - lo]; the value of idx out of range is unspecified (last element) """
    idx = N.of(idx) - lo
    if not isinstance(idx.c, C.IV):
        return lst[min(max(int(idx.c), 0), len(lst) - 1)]
    kind = type(lst[0])
    if kind in (N, R):
        return kind(mux(idx.c, I64, 0, len(lst) - 1, lambda k: lst[k].c, I64 if kind is N else F64))
    return mux(idx.c, I64, 0, len(lst) - 1, lambda k: lst[k], DT(bool))


def count(bs):
    t = N(0)
    for b in bs:
        t = t + N(C.b2i(b, I64))
    return t


def total(rs):
    t = R.of(0.)
    for r in rs:
        t = t + r
    return t


# ------------------------------------------------------------------ BART trees


class Tree:
    """One decision tree; var/split lists of N of length h, leaf list of R of length 2 h."""

    def __init__(self, var, split, leaf=None):
        self.var, self.split, self.leaf = list(var), list(split), None if leaf is None else list(leaf)
        self.h = len(self.var)
        self._c = {}

    def isdec(self, i):
        if i >= self.h or i < 1:
            return False
        return self.split[i] != 0

    def reached(self, i):
        """ the node exists: all its ancestors are decision nodes """
        k = ('r', i)
        if k not in self._c:
            self._c[k] = True if i == 1 else And(self.reached(i >> 1), self.isdec(i >> 1))
        return self._c[k]

    def dec(self, i):
        return And(self.reached(i), self.isdec(i))

    def isleaf(self, i):
        return And(self.reached(i), Not(self.isdec(i)))

    def wellformed(self):
        out = [self.split[0] == 0, self.var[0] == 0]
        for i in range(2, self.h):
            out.append(Implies(self.isdec(i), self.isdec(i >> 1)))
        return all_(out)

    def ancestors(self, i):
        """ (ancestor, i is in its right subtree) """
        out = []
        while i > 1:
            out.append((i >> 1, bool(i & 1)))
            i >>= 1
        return out

    def rule_ok(self, i, maxs, p):
        """ the rule at decision node i is one of the allowed ones """
        v, s = self.var[i], self.split[i]
        c = [v < p, v >= 0, s >= 1, s <= sel(maxs, v)]
        for a, right in self.ancestors(i):
            same = self.var[a] == v
            c.append(Implies(same, s > self.split[a] if right else s < self.split[a]))
        return all_(c)

    def rules_ok(self, maxs):
        return all_([Implies(self.dec(i), self.rule_ok(i, maxs, len(maxs))) for i in range(1, self.h)])

    def range_of(self, i, v, maxs):
        """ interval [l, r) of the cutpoints of variable v allowed at node i """
        l, r = N(1), sel(maxs, v) + 1
        for a, right in self.ancestors(i):
            same = self.var[a] == v
            s = self.split[a]
            if right:
                l = ite(And(same, s + 1 > l), s + 1, l)
            else:
                r = ite(And(same, s < r), s, r)
        return l, r

    def goes_right(self, i, x):
        """ x: list of N (coordinates of a point) """
        return sel(x, self.var[i]) >= self.split[i]

    def lands(self, x):
        """ dict node -> condition that the point falls in the leaf """
        out = {i: False for i in range(1, 2 * self.h)}

        def rec(i, cond):
            if i >= self.h:
                out[i] = cond
                return
            out[i] = And(cond, Not(self.isdec(i)))
            c = And(cond, self.isdec(i))
            if c is False:
                return
            g = self.goes_right(i, x)
            rec(2 * i, And(c, Not(g)))
            rec(2 * i + 1, And(c, g))
        rec(1, True)
        return out

    def traverse(self, x):
        l = self.lands(x)
        r = N(0)
        for i, c in l.items():
            r = ite(c, N(i), r)
        return r

    def value(self, x):
        l = self.lands(x)
        r = R.of(0.)
        for i, c in l.items():
            r = ite(c, self.leaf[i], r)
        return r


def forest(bart, prefix=''):
    v, s, l = ints(bart['var_trees']), ints(bart['split_trees']), reals(bart['leaf_trees']) if 'leaf_trees' in bart else None
    return [Tree(v[t], s[t], None if l is None else l[t]) for t in range(len(v))]


def points(bart):
    X = ints(bart['X'])
    return [list(X[:, i]) for i in range(X.shape[1])]
