"""C16: counting and summing over leaves does not depend on batching."""
from .mcmc import *


def indices(shape, size, dtype, free=None):
    """ leaf indices; free: only these points are symbolic, the others are in leaf 1 """
    a = run.sym_int('li', shape, dtype, 1, size - 1) if free is None else None
    if a is None:
        c = I.oempty(shape)
        c[...] = 1
        for t in range(shape[0]) if len(shape) > 1 else (0,):
            for j in free:
                c[(t, j) if len(shape) > 1 else (j,)] = C.ivar(f'li_{t}_{j}', DT(dtype), 1, size - 1)
        a = SA(DT(dtype), c)
    return a


def count_harness(k, name, nt, n, size, batch, dtype=np.uint8, free=None, leaves=None):
    def goals(args, out, draws):
        li, o = ints(args[0]).reshape(nt, n), ints(out)
        res = [('shape', tuple(o.shape) == (nt, size))]
        if res[0][1]:
            for t in range(nt):
                for l in leaves or range(size):
                    res.append((f'count: leaf {l} of tree {t}', o[t, l] == count([li[t, i] == l for i in range(n)])))
        return res
    Harness(k, f'count {name}', inputs=lambda: (indices((nt, n), size, dtype, free),), goals=goals,
            fn=lambda li: mcmcstep.count_datapoints_per_leaf(li, size, batch), raises=True, samples=1,
            bounds=f'trees={nt} points={n} nodes={size} batch={batch} {np.dtype(dtype).name}' + (f' symbolic points {free}' if free else ''))


def sum_harness(k, name, n, size, batch, dtype=np.uint8, free=None, leaves=None):
    def inputs():
        li = indices((n,), size, dtype, free)
        if free is None:
            r = run.sym_real('r', (n,))
        else:
            c = I.oempty((n,))
            c[...] = np.float32(1)
            for j in free:
                c[j] = C.RV(z3.Real(f'r_{j}'))
            r = SA(DT(np.float32), c)
        return r, li

    def goals(args, out, draws):
        r, li, o = reals(args[0]), ints(args[1]), reals(out)
        res = [('shape', tuple(o.shape) == (size,))]
        if res[0][1]:
            for l in leaves or range(size):
                if free is None:
                    s = total(ite(li[i] == l, r[i], R.of(0.)) for i in range(n))
                else:
                    s = total([ite(li[i] == l, r[i], R.of(0.)) for i in free] + [R.of(float(n - len(free)) if l == 1 else 0.)])
                res.append((f'sum: leaf {l}', close(o[l], s)))
        return res
    Harness(k, f'sum {name}', inputs=inputs, fn=lambda r, li: mcmcstep.sum_resid(r, li, size, batch), goals=goals, raises=True, samples=1,
            bounds=f'points={n} nodes={size} batch={batch} {np.dtype(dtype).name}' + (f' symbolic points {free}' if free else ''))


def batched_steps(k, c, batches):
    """ the whole step gives the same result whatever the batch sizes """
    def fn(bart, key):
        out = []
        for rb, cb in batches:
            b = dict(bart)
            b['opt'] = jaxext.LeafDict(b['opt'], resid_batch_size=rb, count_batch_size=cb)
            b = mcmcstep.step(b, key)
            b.pop('opt')
            out.append({n: b[n] for n in OUT if n in b and b[n] is not None})
        return out

    def goals(args, out, draws):
        res = []
        for j, o in enumerate(out[1:]):
            for n in o:
                if n in ('leaf_trees', 'resid', 'sigma2'):
                    a, b = np.ravel(reals(out[0][n])), np.ravel(reals(o[n]))
                    f = all_([close(x, y) for x, y in zip(a, b)])
                else:
                    a, b = np.ravel(ints(out[0][n])), np.ravel(ints(o[n]))
                    f = all_([x == y for x, y in zip(a, b)])
                res.append((f'{n}: same with batch sizes {batches[0]} and {batches[j + 1]}', f))
        return res
    Harness(k, f'step {c.n}', inputs=lambda: (sym_state(c), I.root_key()), fn=fn, goals=goals, pre=lambda a: pre_state(a[0]),
            bounds=f'{c}, batch sizes {batches}', nonlin='uf', samples=1)


OUT = ('var_trees', 'split_trees', 'leaf_indices', 'affluence_trees', 'leaf_trees', 'resid', 'sigma2', 'grow_prop_count', 'grow_acc_count',
       'prune_prop_count', 'prune_acc_count')


def main(k):
    if hasattr(mcmcstep, 'count_datapoints_per_leaf'):
        for n in range(6 if not k.thorough else 9):
            for batch in (None, 1, 2, 3, 4, 5, 7):
                if batch is not None and batch > n + 2:
                    continue
                count_harness(k, f'{n}-{batch}', 2, n, 8, batch)
        for batch in (None, 1, 16, 300):
            count_harness(k, f'300-{batch}', 1, 300, 8, batch, free=[0, 150, 299], leaves=range(1, 8))
        for batch in (None, 3):
            count_harness(k, f'd8-{batch}', 1, 2, 256, batch)
            count_harness(k, f'd9-{batch}', 1, 2, 512, batch, np.uint16)
    if hasattr(mcmcstep, 'sum_resid'):
        for n in range(6 if not k.thorough else 9):
            for batch in (None, 1, 2, 3, 4, 5, 7):
                if batch is not None and batch > n + 2:
                    continue
                sum_harness(k, f'{n}-{batch}', n, 8, batch)
        for batch in (None, 1, 16, 300):
            sum_harness(k, f'300-{batch}', 300, 8, batch, free=[0, 150, 299], leaves=range(1, 8))
        for batch in (None, 3):
            sum_harness(k, f'd8-{batch}', 2, 256, batch)
            sum_harness(k, f'd9-{batch}', 2, 512, batch, np.uint16)
    batched_steps(k, Cfg(3, 1, 3, 1, sym_p=False), [(None, None), (2, None), (None, 2)])
    batched_steps(k, Cfg(3, 2, 4, 2, sym_p=False, minp=None), [(3, 3), (1, None), (None, 1)])
