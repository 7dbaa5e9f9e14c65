"""C32: progress reports."""
import builtins
import io
import itertools
import re
import sys

from .mcmc import *
from bartz import mcmcloop
from symx.spec import I64


class Tee(io.TextIOBase):
    """ standard output that can be recorded """
    def __init__(self, out):
        self.out, self.buf = out, None

    def write(self, s):
        if self.buf is None:
            return self.out.write(s)
        self.buf.append(s)
        return len(s)

    def flush(self):
        self.out.flush()

    def __getattr__(self, n):
        return getattr(self.out, n)


class Path:
    """ decisions taken by the reporting code on symbolic values """
    cur = None

    def __init__(self, plan):
        self.plan, self.taken, self.conds = plan, [], []

    def decide(self, c):
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        v = self.plan[len(self.taken)] if len(self.taken) < len(self.plan) else True
        self.taken.append(v)
        self.conds.append(C.zb(c) if v else z3.Not(C.zb(c)))
        return v


class SymB:
    def __init__(self, c): self.c = c
    def __bool__(self): return Path.cur.decide(self.c)
    def item(self): return self
    def __invert__(self): return SymB(z3.Not(C.zb(self.c)))
    def __and__(self, o): return SymB(z3.And(C.zb(self.c), C.zb(o.c if isinstance(o, SymB) else bool(o))))
    def __or__(self, o): return SymB(z3.Or(C.zb(self.c), C.zb(o.c if isinstance(o, SymB) else bool(o))))
    __rand__, __ror__ = __and__, __or__


def _op(f, back=False):
    def r(s, o):
        o = o.v if isinstance(o, Num) else o.item() if hasattr(o, 'item') else o
        a, b = (o, s.v) if back else (s.v, o)
        if isinstance(a, float) or isinstance(b, float):
            a, b = R.of(a), R.of(b)
        return f(a, b)
    return r


class Num:
    """ number in the reporting code; when it is printed a mark is written instead """
    marks = []

    def __init__(self, v): self.v = v

    __add__, __radd__ = (_op(lambda a, b: Num(a + b), k) for k in (False, True))
    __sub__, __rsub__ = (_op(lambda a, b: Num(a - b), k) for k in (False, True))
    __mul__, __rmul__ = (_op(lambda a, b: Num(a * b), k) for k in (False, True))
    __truediv__, __rtruediv__ = (_op(lambda a, b: Num(R.of(a) / R.of(b)), k) for k in (False, True))
    __floordiv__ = _op(lambda a, b: Num(N.of(a) // N.of(b)))
    __mod__ = _op(lambda a, b: Num(N(C.i_rem(N.of(a).c, N.of(b).c, I64))))
    __lt__, __le__ = _op(lambda a, b: SymB(a < b)), _op(lambda a, b: SymB(a <= b))
    __gt__, __ge__ = _op(lambda a, b: SymB(a > b)), _op(lambda a, b: SymB(a >= b))
    __eq__, __ne__ = _op(lambda a, b: SymB(a == b)), _op(lambda a, b: SymB(a != b))
    __hash__ = None
    def __bool__(self): return bool(SymB(self.v != 0))
    def item(self): return self

    def __format__(self, spec):
        Num.marks.append((self.v, spec))
        return f'<{len(Num.marks) - 1:020d}>'

    def __str__(self): return format(self, '')


def standin(x):
    """ argument of the reporting function """
    if not isinstance(x, SA):
        return np.asarray(x)
    c = x.c[()]
    if C.concrete(c):
        return x.dt.np.type(c)
    return SymB(c) if x.dt.kind == 'b' else Num(ints(x) if x.dt.kind in 'iu' else reals(x))


LINE = re.compile(r'^Iteration +(\S+)/(\S+) P_grow=(\S+) P_prune=(\S+) A_grow=(\S+) A_prune=(\S+?)( \(burnin\))?$')


def number(s):
    """ printed number: value, digits after the point (None if it is exact) """
    m = re.fullmatch(r'<(\d+)>', s)
    if m:
        v, spec = Num.marks[int(m[1])]
        d = re.fullmatch(r'[ \d]*\.(\d+)f', spec)
        return v, int(d[1]) if d else None
    return (float(s) if '.' in s or 'n' in s else int(s)), (len(s.split('.')[1]) if '.' in s else None if 'n' in s else 0)


def harness(k, every, nt, sched, burnin, hi=2 ** 20, lo=0):
    nb, ns, nk = sched

    def inputs():
        b = {f: run.sym_int(f, (), np.int32, 0, nt) for f in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')}
        b['leaf_trees'] = np.zeros((nt, 4), np.float32)
        b['sigma2'] = np.float32(1)
        return b, run.sym_int('i', (), np.int32, lo, hi)

    def fn(bart, i):
        cb = mcmcloop.make_simple_print_callback(every)
        cb(bart=bart, burnin=burnin, i_total=i, i_skip=i, n_burn=nb, n_save=ns, n_skip=nk)
        return i

    def goals(args, out, draws):
        b, i = args
        i = ints(i)
        g = []
        count = {f: ints(b[f]) for f in b if f.endswith('count')}
        due = C.i_cmp('eq', C.i_rem((i + 1).c, every, I64), 0, I64)

        def report(text, name, conds):
            """ text written, under a condition """
            imp = (lambda f: C.Implies(z3.And(conds), C.zb(f))) if conds else (lambda f: f)
            lines = text.splitlines()
            if not lines:
                g.append((f'{name}: nothing printed', imp(C.Not(due))))
                return
            g.append((f'{name}: report printed', imp(due)))
            m = LINE.match(lines[0]) if len(lines) == 1 else None
            if not m or not text.endswith('\n'):
                g.append((f'{name}: format of {text[:200]!r}', imp(C.Not(due))))
                return
            try:
                for j in range(1, 7):
                    number(m[j])
            except ValueError:
                g.append((f'{name}: numbers in {text[:200]!r}', imp(C.Not(due))))
                return
            v, _ = number(m[1])
            g.append((f'{name}: iteration number', imp(v == i + 1 if isinstance(v, N) else i + 1 == v)))
            v, _ = number(m[2])
            g.append((f'{name}: total number of iterations', imp(N.of(v) == nb + ns * nk if isinstance(v, N) else v == nb + ns * nk)))
            g.append((f'{name}: burn-in mark', imp((m[7] is not None) == burnin)))
            for j, what, n, d in ((3, 'P_grow', count['grow_prop_count'], N.of(nt)), (4, 'P_prune', count['prune_prop_count'], N.of(nt)),
                                  (5, 'A_grow', count['grow_acc_count'], count['grow_prop_count']), (6, 'A_prune', count['prune_acc_count'], count['prune_prop_count'])):
                v, digits = number(m[j])
                if digits is not None and digits < 2:
                    g.append((f'{name}: digits of {what}', imp(C.Not(due))))
                if isinstance(v, R):
                    g.append((f'{name}: {what}', imp(C.Or(d == 0, C.And(v * d.real() - n.real() <= 1e-3, n.real() - v * d.real() <= 1e-3)))))
                elif not isinstance(d.c, (int, np.integer)):
                    g.append((f'{name}: {what} is not a constant', imp(C.Not(due))))
                elif int(d.c):
                    g.append((f'{name}: {what}', imp(abs(float(v) - int(n.c) / int(d.c)) <= .0051)))

        if any(isinstance(x, SA) for x in jax.tree_util.tree_leaves(args, is_leaf=run.leaf)):
            Num.marks.clear()
            todo = [[]]
            for what in range(64):
                if not todo:
                    break
                plan = todo.pop()
                Path.cur = p = Path(plan)
                conds, buf = [], []
                TEE.buf = buf
                try:
                    for f, ins, guards in CTX.effects:
                        ok = True
                        for c in guards:
                            ok = ok and p.decide(c)
                        if ok:
                            f(*map(standin, ins))
                finally:
                    TEE.buf = None
                for j in range(len(plan), len(p.taken)):
                    todo.append(p.taken[:j] + [False])
                report(''.join(buf), f'path {p.taken}', p.conds)
            else:
                raise C.Unsupported('too many paths in the reporting function')
        else:
            buf, TEE.buf = TEE.buf, None
            report(''.join(buf or []), 'printed', [])
        return g

    def before():
        TEE.buf = []

    name = f'every {every} trees={nt} n_burn={nb} n_save={ns} n_skip={nk} {"burn-in" if burnin else "main"}'
    Harness(k, name, inputs=inputs, fn=fn, goals=goals, raises=True, samples=6, before=before, bounds=f'{name}, iteration in [{lo}, {hi}]')
    TEE.buf = None


TEE = None


def main(k):
    global TEE
    k.assumptions += ['exact arithmetic for the fractions; the fraction accepted is not specified with no proposals']
    TEE = sys.stdout = Tee(sys.stdout)
    try:
        for every in (1, 2, 3, 7, 100, 1000):
            for nt in (1, 50, 200) if every in (7, 100) else (3,):
                harness(k, every, nt, (100, 1000, 1), False, lo=100)
        harness(k, 10, 200, (5000, 1000, 3), True, hi=4999)
        harness(k, 2, 5, (0, 7, 2), False, hi=13)
        harness(k, 1, 2, (3, 0, 1), True, hi=2)
    finally:
        sys.stdout = TEE.out
