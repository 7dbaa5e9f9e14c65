"""C09: leaf values are drawn from their conditional posterior."""
import itertools

from .mcmc import *
from symx import rnd as RND
from symx.check import TIER


class C09:
    def __init__(self, k, name, cfg, **kw):
        self.cfg = cfg
        self.own = None
        self.h = None
        me = self

        class H(Harness):
            def run(h):
                me.h = h
                super().run()
        H(k, name, inputs=lambda: (sym_state(cfg), I.root_key()), fn=mcmcstep.step, goals=self.goals, pre=lambda a: pre_state(a[0]),
          concrete_goals=self.concrete, bounds=str(cfg), nonlin='exact', group=False, timeout=120, cutlog=True, split=True, **kw)

    def goals(self, args, out, draws):
        b0, b1 = args[0], merge(args[0], out)
        f0, f1, pts = forest(b0), forest(b1), points(b0)
        names = {d.name for d in draws if d.kind == 'normal'}
        self.own = []
        before = set()
        res = []
        cut = []
        for t in range(len(f0)):
            h = f0[t].h
            first = len(res)
            leafs = {i: real_e(f1[t].leaf[i]) for i in range(1, 2 * h)}
            zs = set().union(*[zvars(e) for e in leafs.values()]) & names
            own = sorted(zs - before)
            before |= zs
            self.own.append(own)
            post = posterior(b0, b1, t, f0, f1, pts)
            zero = [(z3.Real(n), C.rval(0)) for n in own]
            coef = {}
            for i, e in leafs.items():
                is_leaf = f1[t].isleaf(i)
                if is_leaf is False:
                    continue
                M = z3.substitute(e, *zero) if zero else e
                cs = {}
                for n in zvars(e) & set(own):
                    u = [(z3.Real(m), C.rval(1 if m == n else 0)) for m in own]
                    cs[n] = z3.simplify(z3.substitute(e, *u) - M)
                coef[i] = cs
                S, s2, den, cnt = post[i]
                Mr = R(C.RV(M))
                lin = R(C.RV(M + sum([c * z3.Real(n) for n, c in cs.items()], C.rval(0))))
                v = R(C.RV(sum([c * c for c in cs.values()], C.rval(0))))
                res.append((f'mean: leaf {i} of tree {t}', Implies(is_leaf, close(Mr * den, S))))
                res.append((f'linear: leaf {i} of tree {t}', Implies(is_leaf, close(lin, R(C.RV(e))))))
                res.append((f'var: leaf {i} of tree {t}', Implies(is_leaf, close(v * den, s2))))
            for i, j in itertools.combinations(coef, 2):
                common = set(coef[i]) & set(coef[j])
                if common:
                    cov = R(C.RV(sum([coef[i][n] * coef[j][n] for n in common], C.rval(0))))
                    res.append((f'cov: leaves {i} and {j} of tree {t}', Implies(And(f1[t].isleaf(i), f1[t].isleaf(j)), close(cov, 0.))))
            # the values of the trees already updated can be anything
            if cut:
                res[first:] = [(n, f, z3.substitute(C.zb(f), *cut)) for n, f in res[first:]]
            cut = cut + [(e, z3.Real(f'cut_{t}_{i}')) for i, e in enumerate(base_terms(leafs.values(), set(own)))]
        return res

    def rerun(self, cargs, names, values):
        """ the real code with other values of the normal draws """
        sav = dict(RND.TABLE.values)
        key = jax.random.key(20240607)
        for d in CTX.draws:
            if d.name in names:
                kd = tuple(int(x) for x in np.asarray(jax.random.key_data(I.real_key(d.term, {'root': key}))))
                RND.TABLE.values[(d.kind, kd, d.pos)] = values[d.name]
        try:
            return run.realrun(mcmcstep.step, jax.tree_util.tree_map(jnp.asarray, cargs[0]), key)
        finally:
            RND.TABLE.values = sav

    def concrete(self, cargs, out, draws):
        b0, b1 = cargs[0], merge(cargs[0], out)
        f0, f1, pts = forest(b0), forest(b1), points(b0)
        val = {d.name: float(d.value.c) for d in draws}
        res = []
        sc = scale_of(b0) * 10
        for t in range(len(f0)):
            own = self.own[t]
            L = np.asarray(out['leaf_trees'][t], float)
            M = np.asarray(self.rerun(cargs, own, dict.fromkeys(own, 0.))['leaf_trees'][t], float)
            U = {n: np.asarray(self.rerun(cargs, own, {m: float(m == n) for m in own})['leaf_trees'][t], float) - M for n in own}
            post = posterior(b0, b1, t, f0, f1, pts)
            leaves = [i for i in range(1, 2 * f0[t].h) if f1[t].isleaf(i)]
            for i in leaves:
                S, s2, den, cnt = (float(x.c) for x in post[i])
                res.append((f'mean: leaf {i} of tree {t}', close(M[i], S / den, sc)))
                res.append((f'linear: leaf {i} of tree {t}', close(L[i], M[i] + sum(U[n][i] * val[n] for n in own), sc * 10)))
                res.append((f'var: leaf {i} of tree {t}', close(sum(U[n][i] ** 2 for n in own), s2 / den)))
            for i, j in itertools.combinations(leaves, 2):
                res.append((f'cov: leaves {i} and {j} of tree {t}', close(sum(U[n][i] * U[n][j] for n in own), 0.)))
        return res


def main(k):
    for st in structs(3):
        C09(k, f'step 3-1 {sorted(st)}', Cfg(3, 2, 2, 1, minp=None, sym_p=False, struct=[st]))
    for a in structs(2):
        for b in structs(2):
            C09(k, f'step 2-2 {sorted(a)} {sorted(b)}', Cfg(2, 1, 2, 2, minp=None, sym_p=False, struct=[a, b]))
