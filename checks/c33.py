"""C33: the printed tree is the tree."""
import contextlib
import io
import re
from unittest import mock

from .mcmc import *
from bartz import debug
from symx import dse

MARKS = []
MARK = r'<(\d{6})>'


def mark(e, spec):
    MARKS.append((e, spec))
    return f'<{len(MARKS) - 1:06d}>'


class Int(dse.SymInt):
    """ element of the predictor and cutpoint arrays: prints a mark """
    def __format__(self, spec): return mark(self.e, spec)
    def __str__(self): return mark(self.e, '')
    __repr__ = __str__
    def item(self): return self
    def astype(self, t): return dse.SymBool(self.e != 0) if np.dtype(t) == bool else self
    def tolist(self): return self


class Real:
    """ leaf value, only to be printed """
    def __init__(self, e): self.e = e
    def __format__(self, spec): return mark(self.e, spec)
    def __str__(self): return mark(self.e, '')
    __repr__ = __str__
    def item(self): return self
    def astype(self, t): return self
    def tolist(self): return self


def conversion(t):
    """ stand-in for int and float in the module, identity on elements """
    class Meta(type(t)):
        def __instancecheck__(cls, x): return isinstance(x, t)

    class Conv(t, metaclass=Meta):
        def __new__(cls, x=0, *a):
            return x if isinstance(x, (Int, Real)) else t(x, *a)
    return Conv


class Arr(np.ndarray):
    """ array of symbolic elements with the indexing helper of jax """
    class At:
        def __init__(self, a): self.a = a

        def __getitem__(self, i):
            a = self.a

            class Ref:
                def get(self, mode=None, fill_value=0, **kw):
                    n = len(a)
                    if 0 <= i < n:
                        return a[i]
                    if mode in ('fill', 'drop'):
                        return fill_value
                    return a[min(max(i, 0), n - 1)]
            return Ref()

    @property
    def at(self): return self.At(self)


def arr(xs):
    a = np.empty(len(xs), object)
    a[:] = xs
    return a.view(Arr)


LINE = re.compile(r'^ *(\d+) (.*)$')
SHORT = re.compile(r'^(.*?)(?:\((\S+): (\S+?)\)|(\S+))$')
LONG = re.compile(r'^(.*?)(leaf|decision|unused)\((\S+), (\S+), (\S+)\)$')
GLYPHS = set(' │├└─┐╢')


def parse(text, print_all):
    """ [(index, indentation, kind, values)] """
    out = []
    for l in text.splitlines():
        m = LINE.match(l)
        if not m:
            return f'line {l!r}'
        r = m[2]
        if print_all:
            n = LONG.match(r)
            if not n:
                return f'line {l!r}'
            pre, kind, vals = n[1], n[2], n.groups()[2:]
        else:
            n = re.search(r'[^ │├└─┐╢]', r)
            if not n:
                return f'line {l!r}'
            pre, r = r[:n.start()], r[n.start():]
            n = re.fullmatch(r'\((\S+): (\S+)\)', r)
            kind, vals = ('decision', n.groups()) if n else ('leaf', (r,))
        if set(pre) - GLYPHS:
            return f'line {l!r}'
        out.append((int(m[1]), len(m[0]) - len(m[2]) + len(pre), kind, vals))
    return out


def preorder(size, i=1):
    return [] if i >= size else [i] + preorder(size, 2 * i) + preorder(size, 2 * i + 1)


def good_spec(s):
    if s == '':
        return True
    m = re.fullmatch(r'[ \d<>+-]*#?[ \d<>+-]*\.(\d+)([ge])', s)
    return bool(m) and int(m[1]) >= (2 if m[2] == 'g' else 1)


def goals(lines, d, print_all, var, split, leaf, value, eq):
    """ goals on the lines printed; value(text) -> (value, format); eq(a, b, spec) """
    size, h = 2 ** d, 2 ** (d - 1)
    if isinstance(lines, str):
        return [(f'format: {lines}', False)]
    g = []
    dec = lambda i: i < h and split[i] != 0
    isdec = {i: dec(i) for i in range(1, size)}
    intree = {1: True}
    for i in range(2, size):
        intree[i] = And(intree[i // 2], isdec[i // 2])
    shown = {i: (ind, kind, vals) for i, ind, kind, vals in lines}
    order = [i for i in preorder(size) if i in shown]
    g.append(('order: depth first, from left to right, once each', order == [x[0] for x in lines]))
    depth = {}
    for i in shown:
        depth.setdefault(i.bit_length(), set()).add(shown[i][0])
    g.append(('indentation: the same at the same depth', all(len(s) == 1 for s in depth.values())))
    cols = [min(depth[x]) for x in sorted(depth)]
    g.append(('indentation: larger for children', all(a < b for a, b in zip(cols, cols[1:]))))
    for i in range(1, size):
        if i not in shown:
            g.append((f'nodes: {i} is shown if it is in the tree', False if print_all else Not(intree[i])))
            continue
        _, kind, vals = shown[i]
        if not print_all:
            g.append((f'nodes: {i} is shown only if it is in the tree', intree[i]))
        g.append((f'kind: of {i} ({kind})', Not(intree[i]) if kind == 'unused' else
                  And(intree[i], isdec[i]) if kind == 'decision' else And(intree[i], Not(isdec[i]))))
        want = []
        if print_all or kind == 'decision':
            want += [('predictor', vals[0], var[i] if i < h else 0), ('cutpoint', vals[1], split[i] if i < h else 0)]
        if print_all or kind == 'leaf':
            want += [('value', vals[-1], leaf[i])]
        for n, t, x in want:
            v, spec = value(t)
            g.append((f'{n}: of {i}', False if v is None else eq(v, x, spec)))
    return g


def zint(e):
    return e.e if isinstance(e, dse.SymInt) else e


def symbolic(k, d, print_all):
    h, size = 2 ** (d - 1), 2 ** d
    var = [z3.Int(f'var{i}') for i in range(h)]
    split = [z3.Int(f'split{i}') for i in range(h)]
    leaf = [z3.Real(f'leaf{i}') for i in range(size)]
    base = [z3.And(v >= 0, v < 256) for v in var + split]
    ex = dse.Explorer(base, max_paths=20000)

    def call():
        MARKS.clear()
        out = io.StringIO()
        with contextlib.redirect_stdout(out), mock.patch.multiple(debug, create=True, int=conversion(int), float=conversion(float)):
            debug.print_tree(arr([Real(x) for x in leaf]), arr([Int(x) for x in var]), arr([Int(x) for x in split]), print_all)
        return out.getvalue(), list(MARKS)

    def value(marks):
        def f(t):
            m = re.fullmatch(MARK, t)
            if m:
                return marks[int(m[1])]
            try:
                return (int(t) if re.fullmatch(r'-?\d+', t) else float(t)), ''
            except ValueError:
                return None, ''
        return f

    def eq(v, x, spec):
        v, x = zint(v), zint(x)
        if z3.is_expr(x) and x.is_real() and not (z3.is_expr(v) and v.is_real() and good_spec(spec)):
            return False
        if not z3.is_expr(v) and not z3.is_expr(x):
            return v == x
        return v == x

    gs, cover = [], []
    for path, res in ex.run(call):
        pc = z3.And(*path) if path else z3.BoolVal(True)
        cover.append(pc)
        n = len(cover)
        if isinstance(res, Exception):
            gs.append((f'failure on path {n}: {type(res).__name__}: {res}', z3.Not(pc)))
            continue
        text, marks = res
        conj = [C.zb(f) for _, f in goals(parse(text, print_all), d, print_all, var, split, leaf, value(marks), eq)]
        gs.append((f'path {n}', z3.Implies(pc, z3.And(*conj))))
    gs.append(('the paths cover all the trees', z3.Or(*cover)))
    k.extra['paths'] = k.extra.get('paths', 0) + len(cover)
    # one query for the whole set when there are many paths
    if len(gs) > 24:
        step = -(-len(gs) // 24)
        gs = [(f'{gs[a][0]} and following', C.And(*[f for _, f in gs[a:a + step]])) for a in range(0, len(gs), step)]

    def replay(n, model):
        get = lambda s, v=0: model.get(s, v)
        vt = [int(get(f'var{i}')) % 256 for i in range(h)]
        st = [int(get(f'split{i}')) % 256 for i in range(h)]
        lt = [float(get(f'leaf{i}')) for i in range(size)]
        for lt in (lt, [1.5 * i - 7.25 for i in range(size)]):
            bad = concrete(d, print_all, vt, st, lt)
            if bad:
                return bad, dict(var_tree=vt, split_tree=st, leaf_tree=lt, print_all=print_all)
        return None
    k.prove(f'd={d} print_all={print_all}', base, gs, f'every tree of maximum depth {d}, {len(cover)} paths, print_all={print_all}', replay=replay)
    # the real code on real arrays
    rng = np.random.default_rng(d)
    for _ in range(4):
        vt, st = rng.integers(0, 256, h), rng.integers(0, 256, h) * rng.integers(0, 2, h)
        lt = rng.normal(size=size) * 10. ** rng.integers(-6, 7, size)
        bad = concrete(d, print_all, vt, st, lt)
        if bad:
            k.violation(f'd={d} print_all={print_all}: {bad}', dict(var_tree=vt, split_tree=st, leaf_tree=lt))
            return
        k.samples += 1
    k.functions.add('debug.py:print_tree')


def concrete(d, print_all, vt, st, lt):
    """ None, or what is wrong with the text printed by the real code on arrays """
    for t in (jnp.uint8, jnp.uint16):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                debug.print_tree(jnp.array(lt, jnp.float32), jnp.array(vt, jnp.uint8), jnp.array(st, t), print_all)
        except Exception as e:
            return f'print_tree fails with {type(e).__name__}: {e}'

        def value(t):
            try:
                return float(t), ''
            except ValueError:
                return None, ''
        lf = np.float32(lt)
        eq = lambda v, x, spec: abs(v - float(x)) <= .0501 * abs(float(x)) + 1e-30 if isinstance(x, np.floating) else v == x
        for n, f in goals(parse(out.getvalue(), print_all), d, print_all, [int(x) for x in vt], [int(x) for x in st], list(lf), value, eq):
            if not f:
                return f'{n}: {out.getvalue()}'
    return None


def main(k):
    k.assumptions += ['array elements print like Python numbers']
    for d in (1, 2, 3, 4) + ((5,) if k.thorough else ()):
        symbolic(k, d, False)
    for d in (1, 2, 3, 4):
        symbolic(k, d, True)
