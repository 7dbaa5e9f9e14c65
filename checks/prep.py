"""Shared pieces of the checks on the preprocessing of predictors: exact machine numbers (IEEE floats and integers)."""
from .mcmc import *

F32 = DT(np.float32)
SMALL = 2. ** -100


class V:
    """ a machine number of some type, compared exactly """
    __slots__ = ('c', 'dt')
    __hash__ = None

    def __init__(self, c, dt):
        self.c, self.dt = c, dt

    def _cmp(self, op, o):
        if not isinstance(o, V):
            o = V(self.dt.np.type(o) if self.dt.kind == 'f' else int(o), self.dt)
        a, b = self.c, o.c
        if self.dt is not o.dt:
            if 'f' in (self.dt.kind, o.dt.kind):
                f = max((x for x in (self.dt, o.dt) if x.kind == 'f'), key=lambda x: x.w)
                a, b = C.convert(a, self.dt, f), C.convert(b, o.dt, f)
                return C.f_cmp(op, a, b, f)
            I64 = DT('int64')
            return C.i_cmp(op, C.i_convert(a, self.dt, I64), C.i_convert(b, o.dt, I64), I64)
        return C.f_cmp(op, a, b, self.dt) if self.dt.kind == 'f' else C.i_cmp(op, a, b, self.dt)

    def __lt__(s, o): return s._cmp('lt', o)
    def __le__(s, o): return s._cmp('le', o)
    def __gt__(s, o): return s._cmp('gt', o)
    def __ge__(s, o): return s._cmp('ge', o)
    def __eq__(s, o): return s._cmp('eq', o)
    def __ne__(s, o): return s._cmp('ne', o)
    def __repr__(s): return f'V({s.c})'


def machine(x):
    """ array of machine numbers of a symbolic or concrete array """
    dt = I.dt_of(x)
    c = I.to_cells(x)
    out = np.empty(c.shape, object)
    for i in np.ndindex(*c.shape):
        out[i] = V(c[i], dt)
    return out if out.ndim else out[()]


def numbers(name, shape, dtype, infinite=False, lo=None, hi=None):
    """ symbolic machine numbers: integers, or floats that are zero or of magnitude at least 2^-100 """
    dt = DT(dtype)
    if dt.kind in 'iu':
        return run.sym_int(name, shape, dtype, lo, hi)
    x = run.sym_fp(name, shape, dtype, finite=not infinite)
    for c in np.ravel(x.c):
        e = c.e
        if infinite:
            CTX.axioms.append(z3.Not(z3.fpIsNaN(e)))
        CTX.axioms.append(z3.Or(z3.fpIsZero(e), z3.fpGEQ(z3.fpAbs(e), C.fpval(SMALL, dt))))
    return x


def distinct_count(xs):
    """ number of distinct values """
    return count([all_([xs[i] != xs[j] for j in range(i)]) for i in range(len(xs))])


def member(x, xs):
    return any_([x == y for y in xs])


def is_huge(v):
    """ the largest value of the type """
    return v == (np.inf if v.dt.kind == 'f' else v.dt.max)


FLOATS = ('exact IEEE single precision; values are zero or of magnitude at least 2^-100, and not NaN '
          '(the platform flushes subnormal numbers to zero)')


def unjit(f):
    return getattr(f, '__wrapped__', f)


def ordered(name, ranks, dtype=np.float32):
    """
    (1, n) array of symbolic finite floats with a given weak order: those of equal rank are equal, the others are ordered
    by rank. Comparisons between these variables are not sent to the solver.
    """
    dt = DT(dtype)
    vs = {}
    for r in sorted(set(ranks)):
        e = z3.FP(f'{name}_{r}', C.FPS[dt.w])
        CTX.axioms.append(z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))))
        CTX.axioms.append(z3.Or(z3.fpIsZero(e), z3.fpGEQ(z3.fpAbs(e), C.fpval(SMALL, dt))))
        if vs:
            CTX.axioms.append(z3.fpLT(vs[max(vs)], e))
        vs[r] = e
        CTX.rank[e.get_id()] = (r, e)
    c = I.oempty((1, len(ranks)))
    for i, r in enumerate(ranks):
        c[0, i] = C.FV(vs[r])
    return SA(dt, c)
