"""C23: automatic batching is transparent and respects the memory limit (symbolic execution of the Python code on the limit)."""
import itertools
import warnings

import jax
from jax import tree_util as tu

from .mcmc import *
from bartz import jaxext
from symx import dse

MAX = 2 ** 62
F, B8, I16 = np.float32, np.uint8, np.int16


def leaves_with_axes(axes, tree):
    """ (array, axis) pairs, by the documented meaning of the axes """
    if isinstance(axes, int):
        return [(x, axes) for x in tu.tree_leaves(tree)]
    flat, d = tu.tree_flatten(tree)
    return list(zip(flat, d.flatten_up_to(axes)))


def sz(x):
    return int(np.prod(x.shape, dtype=object)) * np.dtype(x.dtype).itemsize


class Case:
    """ shapes: function of the size -> arguments (ShapeDtypeStructs) """

    def __init__(self, name, shapes, func, in_axes, out_axes):
        self.name, self.shapes, self.func, self.in_axes, self.out_axes = name, shapes, func, in_axes, out_axes

    def batched(self, limit, seen=None):
        def func(*args):
            out = self.func(*args)
            if seen is not None:
                seen.append((args, out))
            return out
        return jaxext.autobatch(func, limit, in_axes=self.in_axes, out_axes=self.out_axes, return_nbatches=True)


S = jax.ShapeDtypeStruct
CASES = [
    Case('one array', lambda n: (S((n, 2), F),), lambda x: 2 * x + 1, 0, 0),
    Case('defaults on a tree', lambda n: (dict(a=S((n,), I16), b=[S((n, 3), F)]), S((n, 1), B8)),
         lambda t, y: (t['a'] + y[:, 0], {'u': t['b'][0] * 3, 'v': t['a']}), 0, 0),
    Case('last axes', lambda n: (S((2, n), F), S((n, 2), F)), lambda x, y: (x.T - y).T, (1, 0), 1),
    Case('negative and middle axes', lambda n: (S((2, n, 3), F), S((3, n), B8)), lambda x, y: dict(s=x.sum(0) + y.T, m=x * 2.), (-2, -1), dict(s=0, m=1)),
    Case('not batched argument first', lambda n: (S((3,), F), S((2, n), F), S((n,), I16)), lambda c, x, y: (c[:2, None] * x + c[2], -y), (None, 1, 0), (1, 0)),
    Case('not batched leaf', lambda n: (dict(c=S((2,), F), x=S((n, 2), F)),), lambda t: t['c'] * t['x'], (dict(c=None, x=0),), 0),
    Case('different axes of a tree', lambda n: (dict(x=S((n, 2), F), y=S((2, n), F)), S((), F)), lambda t, c: [t['x'] + t['y'].T * c, t['y'] > c],
         (dict(x=0, y=1), None), [0, 1]),
    Case('third axes', lambda n: (S((2, 3, n), F), S((3, n), B8)), lambda x, y: [x * y + x[:, :1], x.transpose(1, 2, 0)], (2, -1), [-1, 1]),
    Case('mixing within elements', lambda n: (S((3, n), F),), lambda x: x[::-1] + x[:1] * x[1:2], 1, 1),
]


def limits(k, case, sizes, skip=()):
    """ all limits at once: the limit is a symbolic integer, one path for each choice made by the code """
    v = z3.Int('max_io_nbytes')
    dom = [v >= 1, v <= MAX]
    classes = {}
    goals = []
    npaths = 0
    t = k.extra.setdefault('dse', dict(paths=0, queries=0, seconds=0.))

    def once(args, limit):
        """ observations of one run on abstract arguments """
        seen = []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            closed, tree, _ = run.trace(lambda *a: case.batched(limit, seen)(*a), args)
        shapes = []
        for a, o in seen:
            la, lo = leaves_with_axes(case.in_axes, a), leaves_with_axes(case.out_axes, o)
            shapes.append((sum(sz(x) for x, ax in la if ax is not None) + sum(sz(x) for x, _ in lo),
                           {x.shape[ax] for x, ax in la + lo if ax is not None}))
        return dict(shapes=shapes, warned=bool(w), jaxpr=str(closed), messages=[str(x.message) for x in w])

    for n in sizes:
        args = case.shapes(n)
        full = leaves_with_axes(case.in_axes, args) + leaves_with_axes(case.out_axes, jax.eval_shape(case.func, *args))
        total = sum(sz(x) for x, ax in full if ax is not None)
        # the limits below and above the total size are explored separately, since bounded divisors are easier for the solver
        low, high = (dse.Explorer(dom + [f], timeout=30000) for f in (v <= total, v > total))
        cover = []
        for half, (path, res) in itertools.chain(zip(itertools.repeat(v <= total), low.run(lambda: once(args, dse.SymInt(v)))) if total else (),
                                                 zip(itertools.repeat(v > total), high.run(lambda: once(args, dse.SymInt(v))))):
            npaths += 1
            pc = z3.And(half, *path)
            cover.append(pc)
            if isinstance(res, Exception):
                goals.append((f'size {n}: no failure: {type(res).__name__}: {str(res)[:200]}', Not(pc)))
                continue
            # the batches are the smallest calls (the first is used to know the output)
            nb_, elems = min(res['shapes'], key=lambda s: (min(s[1]), s[0]))
            b = next(iter(elems))
            ok = len(elems) == 1 and (n == 0 and b == 0 or b and n % b == 0)
            goals.append((f'size {n}: the batches have all the same size', ok or Not(pc)))
            if not ok:
                continue
            goals.append((f'size {n}: fits in the limit or batches are single elements', Implies(pc, Or(nb_ <= v, bool(b <= 1)))))
            goals.append((f'size {n}: a warning is given if a batch does not fit', Implies(pc, (nb_ > v) == z3.BoolVal(res['warned']))))
            classes.setdefault((n, b), []).append((pc, res['jaxpr'], path))
        goals.append((f'size {n}: the paths cover all limits', z3.Or(cover)))
        t['paths'] += npaths
        t['queries'] += low.queries + high.queries
        t['seconds'] = round(t['seconds'] + low.time + high.time, 2)

    def replay(name, model):
        lim = int(model.get('max_io_nbytes', 1))
        n = int(name.split()[1].rstrip(':'))
        args = case.shapes(n)
        try:
            o = once(args, lim)
        except Exception as e:
            return f'{case.name}, size {n}: fails with limit {lim}: {type(e).__name__}: {str(e)[:200]}', dict(size=n, limit=lim)
        nb_, elems = min(o['shapes'], key=lambda s: (min(s[1]), s[0]))
        b = min(elems)
        data = dict(case=case.name, size=n, limit=lim, batch_bytes=nb_, batch_size=b, warnings=o['messages'])
        if len(elems) != 1 or n and (not b or n % b):
            return f'{case.name}, size {n}: batches of different sizes {elems} with limit {lim}', data
        if nb_ > lim and b > 1:
            return f'{case.name}, size {n}: a batch has {b} elements and {nb_} bytes with limit {lim}', data
        if (nb_ > lim) != o['warned']:
            return f'{case.name}, size {n}: batch of {nb_} bytes, limit {lim}, warned: {o["warned"]}', data
        return None

    k.prove(f'limit: {case.name}', dom, goals, f'sizes {list(sizes)}, 1 <= max_io_nbytes <= 2^62, {npaths} paths', replay=replay)
    k.samples += npaths
    return classes


def results(k, case, classes, sizes):
    """ the result is the same as without batching, for each number of batches that can be chosen """
    for (n, b), paths in classes.items():
        if n not in sizes:
            continue
        done = set()
        for pc, jaxpr, path in paths:
            if jaxpr in done:
                continue
            done.add(jaxpr)
            s = z3.Solver()
            v = z3.Int('max_io_nbytes')
            s.add(v >= 1, v <= MAX, pc)
            assert s.check() == z3.sat
            lim = s.model().eval(v, model_completion=True).as_long()
            kw = {}

            def inputs():
                j = iter(range(99))

                def sym(x):
                    if np.dtype(x.dtype).kind == 'f':
                        return run.sym_real(f'x{next(j)}', x.shape, x.dtype)
                    return run.sym_int(f'x{next(j)}', x.shape, x.dtype)
                return tu.tree_map(sym, case.shapes(n))

            def fn(*args):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    r, nb = case.batched(lim)(*args)
                return dict(batched=r, nbatches=nb, plain=case.func(*args))

            def goals(args, out, draws):
                nb = I.to_cells(out['nbatches'])[()]
                nb = int(nb)
                g = [('number of batches', nb >= 1 and n % nb == 0 and n // nb == b)]
                x, y = (tu.tree_flatten(out[i], is_leaf=run.leaf) for i in ('batched', 'plain'))
                g.append(('structure of the result', x[1] == y[1] and all(
                    tuple(p.shape) == tuple(q.shape) and I.dt_of(p).np == I.dt_of(q).np for p, q in zip(x[0], y[0]))))
                if not g[-1][1]:
                    return g
                for i, (p, q) in enumerate(zip(x[0], y[0])):
                    a, c = I.to_cells(p), I.to_cells(q)
                    dt = I.dt_of(p)
                    for ix in np.ndindex(*a.shape):
                        if dt.kind == 'f':
                            f = close(R(a[ix]), R(c[ix]))
                        elif dt.kind == 'b':
                            f = (C.zb(a[ix]) == C.zb(c[ix])) if not (C.isb(a[ix]) and C.isb(c[ix])) else bool(a[ix]) == bool(c[ix])
                            f = f if C.isb(f) else z3.simplify(f)
                        else:
                            f = C.i_cmp('eq', a[ix], c[ix], dt)
                        g.append((f'result: output {i} element {ix}', f))
                return g
            Harness(k, f'{case.name}, size {n}, batches of {b}', inputs=inputs, fn=fn, goals=goals, raises=True, samples=1,
                    bounds=f'limit {lim} and all limits of the same path, all values')


def main(k):
    k.assumptions.append('arrays elements in exact arithmetic; the shapes are concrete, the limit symbolic')
    k.functions.add('jaxext.py:autobatch')
    small = list(range(0, 25)) + [30, 31, 36, 49]
    rs = (0, 1, 2, 3, 4, 6)
    for i, c in enumerate(CASES):
        sizes = small if i < 2 else [0, 1, 2, 3, 4, 5, 6, 8, 9, 12]
        if k.thorough:
            sizes = range(0, 73)
        cl = limits(k, c, sizes)
        results(k, c, cl, rs + ((8, 9, 12) if k.thorough else ()))
    big = [97, 100, 211, 360] + ([1009, 1024, 2520, 10007, 10080, 65536, 10 ** 6, 999983] if k.thorough else [])
    limits(k, CASES[0], big)
    limits(k, CASES[4], big[:2])
