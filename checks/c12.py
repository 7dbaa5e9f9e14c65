"""C12: distribution of the proposals."""
import itertools

from .mcmc import *
from symx import rnd as RND
from symx.check import Inconclusive

TRUE = z3.BoolVal(True)


def free_step(bart, key):
    """ the step with no minimum number of points: a proposal is never discarded because of the points it leaves in the leaves """
    if bart['min_points_per_leaf'] is not None:
        bart = dict(bart, min_points_per_leaf=jnp.zeros_like(bart['min_points_per_leaf']))
    return mcmcstep.step(bart, key)


class C12:
    """ one tree; the proposal is observed as the change of the tree when the acceptance test passes """

    def __init__(self, k, name, cfg, **kw):
        self.cfg = cfg
        a = dict(nonlin='exact', group=False, timeout=150, cutlog=True, samples=1)
        a.update(kw)
        Harness(k, name, inputs=lambda: (sym_state(cfg), I.root_key()), fn=free_step, goals=self.goals, pre=lambda a: pre_state(a[0]),
                concrete_goals=self.concrete, bounds=str(cfg), **a)

    # ------------------------------------------------------------------ roles

    def influences(self, draws, same):
        """ names of the draws that can change a quantity; same(copy) -> formula: no difference in this copy """
        out = []
        for d in draws:
            ren = self.copy([d.name])
            s = z3.Solver()
            s.set('timeout', 20000)
            f = Not(same(ren))
            if f is False:
                continue
            fs = self.base + ren.axioms + [C.zb(f)]
            for g in C.cone(fs):
                s.add(g)
            r = s.check()
            if r == z3.unknown:
                raise Inconclusive(f'influence of {d.name}: {s.reason_unknown()}')
            if r == z3.sat:
                out.append(d.name)
        return out

    def copy(self, names):
        """ renaming of some draws, with the contract of the new ones """
        me = self

        class Ren:
            pairs = [(me.var[n], z3.Const(n + '_b', me.var[n].sort())) for n in names]

            def __call__(self, f):
                return z3.substitute(C.zb(f), *self.pairs) if self.pairs else f

            def term(self, e):
                return z3.substitute(e, *self.pairs) if self.pairs else e
        r = Ren()
        ax = []
        for n, d in me.draws.items():
            for a in CTX.defax.get(n, []):
                b = r.term(a)
                if not b.eq(a):
                    ax.append(b)
        r.axioms = ax
        return r

    def goals(self, args, out, draws):
        b0, b1 = args[0], merge(args[0], out)
        f0, f1 = forest(b0)[0], forest(b1)[0]
        maxs = list(ints(b0['max_split']))
        p, h = len(maxs), f0.h
        self.draws = {d.name: d for d in CTX.draws if d.kind in ('uniform', 'randint')}
        self.var = {n: d.cell.e for n, d in self.draws.items() if hasattr(d.cell, 'e')}
        self.base = pre_state(b0) + CTX.axioms
        self.base = [C.zb(f) for f in self.base]
        T = [(c[0], TRUE) for c in CTX.cuts]
        on = lambda f: z3.substitute(C.zb(f), *T) if T else C.zb(f)
        gp, pp = ints(b1['grow_prop_count']), ints(b1['prune_prop_count'])
        grow, prune = C.zb(gp == 1), C.zb(pp == 1)
        can_grow = {i: And(f0.isleaf(i), True if b0['affluence_trees'] is None else bools(b0['affluence_trees'])[0, i])
                    for i in range(1, h)}
        can_grow = {i: c for i, c in can_grow.items() if c is not False}
        can_prune = {i: And(f0.dec(i), Not(f0.isdec(2 * i)), Not(f0.isdec(2 * i + 1))) for i in range(1, h)}
        can_prune = {i: c for i, c in can_prune.items() if c is not False}
        G = {i: on(And(f1.dec(i), f0.isleaf(i))) for i in can_grow}
        P = {i: on(And(f0.dec(i), f1.isleaf(i))) for i in can_prune}
        rng = {(i, v): f0.range_of(i, N(v), maxs) for i in can_grow for v in range(p)}
        avail = {(i, v): rng[i, v][0] < rng[i, v][1] for i, v in rng}
        V = {(i, v): And(G[i], on(f1.var[i] == v)) for i in can_grow for v in range(p)}
        S = {i: f1.split[i].c for i in can_grow}
        D = list(self.draws.values())
        D = [d for d in D if d.name in self.var]
        gsame = lambda r: all_([Implies(And(G[i], any_([r(G[j]) for j in G])), r(G[i])) for i in G])
        vsame = lambda r: all_([Implies(And(V[i, v], r(G[i])), r(V[i, v])) for i, v in V])
        se = {i: (S[i].e if isinstance(S[i], C.IV) else None) for i in S}
        split_eq = lambda r, i: True if se[i] is None else z3.substitute(se[i], *T) == r.term(z3.substitute(se[i], *T)) if T else se[i] == r.term(se[i])
        ssame = lambda r: all_([Implies(And(V[i, v], r(V[i, v])), split_eq(r, i)) for i, v in V])
        psame = lambda r: all_([Implies(And(P[i], any_([r(P[j]) for j in P])), r(P[i])) for i in P])
        ksame = lambda r: And(Iff(grow, r(grow)), Iff(prune, r(prune)))
        role = {}
        for nm, f in (('kind', ksame), ('node', gsame), ('variable', vsame), ('cutpoint', ssame), ('prune', psame)):
            role[nm] = self.influences(D, f)
        self.role = role
        res = []
        for nm, l in role.items():
            if len(l) > 1:
                raise Inconclusive(f'the choice of {nm} depends on more than one draw: {l}')
        for a, b in itertools.combinations(role, 2):
            if role[a] and role[a] == role[b]:
                # two choices made with the same random number
                res.append((f'shared: the choices of {a} and {b} use different draws', False))
        one = {nm: (l[0] if l else None) for nm, l in role.items()}
        anyg, anyp = any_(can_grow.values()), any_(can_prune.values())
        # kind of move
        res.append(('kind: only growth is possible', Implies(And(anyg, Not(anyp)), And(grow, Not(prune)))))
        res.append(('kind: only pruning is possible', Implies(And(anyp, Not(anyg)), And(prune, Not(grow)))))
        res.append(('kind: none possible', Implies(And(Not(anyp), Not(anyg)), And(Not(prune), Not(grow)))))
        res.append(('kind: one or the other', Implies(And(anyp, anyg), Xor_(grow, prune))))
        both = And(anyg, anyp)
        if one['kind']:
            r = self.copy([one['kind']])
            d = self.draws[one['kind']]
            lo, hi = (R(x) for x in d.bounds)
            u, w = R(C.RV(self.var[d.name])), R(C.RV(r.term(self.var[d.name])))
            near = And((u - w) * 2. <= hi - lo, (w - u) * 2. <= hi - lo)
            res.append(('kind: each kind has probability one half', Implies(And(all_(r.axioms), both, Or(And(grow, r(grow)), And(prune, r(prune)))), near)))
        elif both is not False:
            res.append(('kind: at random when both are possible', Not(both)))
        # leaf to grow
        pn = reals(b0['p_nonterminal'])
        w8 = lambda i: pn[i.bit_length() - 1]
        tot = total(ite(c, w8(i), R.of(0.)) for i, c in can_grow.items())
        for i in G:
            res.append((f'leaf: {i} can be grown', Implies(G[i], can_grow[i])))
        # every time a rule is available at the growable leaves, one of them is grown
        allr = all_([Implies(c, any_([avail[i, v] for v in range(p)])) for i, c in can_grow.items()])
        res.append(('leaf: one is picked', Implies(And(grow, allr), any_(G.values()))))
        if one['node']:
            n = one['node']
            d = self.draws[n]
            down = [x for x in self.var if x != n and x != one['kind']]
            r = self.copy([n] + down)
            lo, hi = (R(x) for x in d.bounds)
            if d.kind == 'randint':
                lo, hi = (R(C.i2f(x, d.dt, DT('float64'))) for x in d.bounds)
                U = lambda t: R(C.i2f(C.IV(t, *C.irange(d.cell)), d.dt, DT('float64')))
            else:
                U = lambda t: R(C.RV(t))
            u, v = U(self.var[n]), U(r.term(self.var[n]))
            # the difference of two randint draws of a set of k values is at most k - 1
            one_ = R.of(1. if d.kind == 'randint' else 0.)
            for i in G:
                c = And(all_(r.axioms), G[i], r(G[i]))
                f = lambda x: (x + one_) * tot <= w8(i) * (hi - lo)
                g = lambda x: x + one_ <= w8(i)
                res.append((f'leaf: probability of {i}', Implies(c, And(f(u - v), f(v - u))),
                            Implies(c, And(g(u - v), g(v - u), close(hi - lo, tot)))))
        else:
            res.append(('leaf: at random when more than one can be grown', Implies(allr, count(list(can_grow.values())) <= 1)))
        rest = [x for x in self.var if x not in (one['node'], one['kind'])]
        r = self.copy(rest)
        res.append(('leaf: no other influence', Implies(all_(r.axioms), gsame(r))))
        # predictor
        for i in G:
            na = count([avail[i, v] for v in range(p)])
            for v in range(p):
                res.append((f'predictor: {v} is available at {i}', Implies(V[i, v], avail[i, v])))
            if one['variable']:
                n = one['variable']
                d = self.draws[n]
                lo, hi = (N(C.i_convert(x, d.dt, DT('int64'))) for x in d.bounds)
                res.append((f'predictor: as many values as predictors available at {i}', Implies(G[i], hi - lo == na)))
                r = self.copy([n] + [x for x in self.var if x not in (n, one['kind'], one['node'])])
                diff = self.var[n] != r.term(self.var[n])
                for v in range(p):
                    res.append((f'predictor: different values pick different predictors: {v} at {i}',
                                Implies(And(all_(r.axioms), diff, V[i, v]), Not(r(V[i, v])))))
                r = self.copy([x for x in self.var if x not in (n, one['kind'], one['node'])])
                res.append((f'predictor: no other influence at {i}', Implies(And(all_(r.axioms), G[i], r(G[i])), all_([Iff(V[i, v], r(V[i, v])) for v in range(p)]))))
            else:
                res.append((f'predictor: at random when more than one is available at {i}', Implies(G[i], na <= 1)))
            # cutpoint
            s = f1.split[i]
            if T:
                s = N(C.IV(z3.substitute(s.c.e, *T), s.c.lo, s.c.hi)) if isinstance(s.c, C.IV) else s
            for v in range(p):
                l, rr = rng[i, v]
                res.append((f'cutpoint: available, predictor {v} at {i}', Implies(V[i, v], And(s >= l, s < rr))))
                if one['cutpoint']:
                    n = one['cutpoint']
                    d = self.draws[n]
                    lo, hi = (N(C.i_convert(x, d.dt, DT('int64'))) for x in d.bounds)
                    lo, hi = (N(C.IV(z3.substitute(x.c.e, *T), x.c.lo, x.c.hi)) if T and isinstance(x.c, C.IV) else x for x in (lo, hi))
                    res.append((f'cutpoint: as many values as cutpoints available, predictor {v} at {i}', Implies(V[i, v], hi - lo == rr - l)))
                    r = self.copy([n])
                    res.append((f'cutpoint: different values pick different cutpoints, predictor {v} at {i}',
                                Implies(And(all_(r.axioms), self.var[n] != r.term(self.var[n]), V[i, v], r(V[i, v])), Not(split_eq(r, i)))))
                    r = self.copy([x for x in self.var if x not in (n, one['kind'], one['node'], one['variable'])])
                    res.append((f'cutpoint: no other influence, predictor {v} at {i}',
                                Implies(And(all_(r.axioms), V[i, v], r(V[i, v])), split_eq(r, i))))
                else:
                    res.append((f'cutpoint: at random, predictor {v} at {i}', Implies(V[i, v], rr - l <= 1)))
        # node to prune
        for i in P:
            res.append((f'prune: {i} has two leaf children', Implies(P[i], can_prune[i])))
        res.append(('prune: one is picked', Implies(prune, any_(P.values()))))
        np_ = count(list(can_prune.values()))
        if one['prune']:
            n = one['prune']
            d = self.draws[n]
            lo, hi = (N(C.i_convert(x, d.dt, DT('int64'))) for x in d.bounds)
            res.append(('prune: as many values as prunable nodes', Implies(prune, hi - lo == np_)))
            r = self.copy([n])
            for i in P:
                res.append((f'prune: different values pick different nodes: {i}',
                            Implies(And(all_(r.axioms), self.var[n] != r.term(self.var[n]), P[i]), Not(r(P[i])))))
            r = self.copy([x for x in self.var if x not in (n, one['kind'])])
            res.append(('prune: no other influence', Implies(all_(r.axioms), psame(r))))
        else:
            res.append(('prune: at random when more than one node is prunable', Implies(prune, np_ <= 1)))
        r = self.copy([one['kind']] if one['kind'] else [])
        if one['kind']:
            res.append(('kind: does not influence the choices', Implies(all_(r.axioms), And(gsame(r), vsame(r), ssame(r), psame(r)))))
        return res

    # ------------------------------------------------- replay on the real code

    def concrete(self, cargs, out, draws):
        """ sweep the values of each draw on the real code and compare frequencies """
        b0 = dict(cargs[0])
        for k in ('y', 'resid', 'leaf_trees'):
            b0[k] = np.zeros_like(b0[k])
        b0['sigma2'] = np.ones_like(b0['sigma2'])
        f0 = forest(b0)[0]
        maxs = list(ints(b0['max_split']))
        p, h = len(maxs), f0.h
        key = jax.random.key(20240607)
        kd = {d.name: tuple(int(x) for x in np.asarray(jax.random.key_data(I.real_key(d.term, {'root': key})))) for d in CTX.draws}
        arg = jax.tree_util.tree_map(jnp.asarray, b0)
        hi = 1 - 2. ** -24
        unit = [d for d in CTX.draws if d.kind == 'uniform' and all(C.isconcf(b) for b in d.bounds)]
        one = {nm: (l[0] if len(l) == 1 else None) for nm, l in self.role.items()}
        base = {}
        for d in unit:
            if d.name != one['kind']:
                base[(d.kind, kd[d.name], d.pos)] = hi

        def run_(**vals):
            sav = dict(RND.TABLE.values)
            RND.TABLE.values.update(base)
            b = {}
            for n, v in vals.items():
                if n != 'None':
                    d = self.draws[n]

                    def at(lo, hi_, v=v, n=n):
                        b[n] = (float(lo), float(hi_))
                        return v(lo, hi_)
                    RND.TABLE.values[(d.kind, kd[n], d.pos)] = at
            try:
                o = run.realrun(free_step, arg, key)
            finally:
                RND.TABLE.values = sav
            f1 = forest(merge(b0, o))[0]
            g = [i for i in range(1, h) if f1.dec(i) and not f0.dec(i)]
            q = [i for i in range(1, h) if f0.dec(i) and not f1.dec(i)]
            return int(o['grow_prop_count']), int(o['prune_prop_count']), (g, q), f1, b
        cg = [i for i in range(1, h) if f0.isleaf(i) and (b0['affluence_trees'] is None or bool(b0['affluence_trees'][0, i]))]
        cp = [i for i in range(1, h) if f0.dec(i) and not f0.isdec(2 * i) and not f0.isdec(2 * i + 1)]
        res = []
        frac = lambda f: (lambda lo, hi_: lo + f * (hi_ - lo))
        K = 64
        kinds = [run_(**{str(one['kind']): frac((j + .5) / K)})[:2] for j in range(K)] if one['kind'] else [run_()[:2]]
        pg = sum(g for g, _ in kinds) / len(kinds)
        pp = sum(q for _, q in kinds) / len(kinds)
        want = (.5, .5) if cg and cp else (1, 0) if cg else (0, 1) if cp else (0, 0)
        res.append((f'kind: probabilities {pg, pp} instead of {want}', abs(pg - want[0]) < .02 and abs(pp - want[1]) < .02))
        kg = next((j for j, x in enumerate(kinds) if x[0]), None)
        kp = next((j for j, x in enumerate(kinds) if x[1]), None)
        pn = np.asarray(b0['p_nonterminal'], float)
        w8 = {i: pn[i.bit_length() - 1] for i in cg}
        if kg is not None:
            fix = {str(one['kind']): frac((kg + .5) / K)} if one['kind'] else {}
            L = 200
            picks = {}
            for j in range(L if one['node'] else 1):
                v = dict(fix)
                if one['node']:
                    v[one['node']] = frac((j + .5) / L)
                g = run_(**v)[2][0]
                k_ = g[0] if g else None
                picks[k_] = picks.get(k_, 0) + 1
            tot = sum(picks.values())
            if None not in picks:
                for i in cg:
                    f, e = picks.get(i, 0) / tot, w8[i] / sum(w8.values())
                    res.append((f'leaf: {i} picked with probability {f} instead of {e}', abs(f - e) < .02))
            for i in picks:
                if i is not None:
                    res.append((f'leaf: {i} grown but not growable', i in cg))
            for i in [i for i in cg if i in picks]:
                av = {}
                for v in range(p):
                    l, r = (int(x.c) for x in f0.range_of(i, N(v), maxs))
                    if l < r:
                        av[v] = (l, r)
                j = 0
                while one['node']:
                    g = run_(**fix, **{one['node']: frac((j + .5) / L)})[2][0]
                    if g == [i]:
                        break
                    j += 1
                fx = dict(fix, **({one['node']: frac((j + .5) / L)} if one['node'] else {}))
                if one['variable']:
                    got, j, m = [], 0, 1
                    while j < m:
                        _, _, g, f1, b = run_(**fx, **{one['variable']: lambda lo, hi_: min(lo + j, hi_ - 1) if hi_ > lo else lo})
                        m = max(1, b[one['variable']][1] - b[one['variable']][0])
                        got.append(int(f1.var[i].c) if g[0] == [i] else None)
                        j += 1
                else:
                    _, _, g, f1, b = run_(**fx)
                    got = [int(f1.var[i].c) if g[0] == [i] else None]
                res.append((f'predictor: picks at {i} {got}, available {sorted(av)}', sorted(map(str, got)) == sorted(map(str, av)) if av else True))
                _, _, g, f1, b = run_(**fx)
                v = int(f1.var[i].c)
                if g[0] == [i] and v in av and one['cutpoint']:
                    got, j, m = [], 0, 1
                    while j < m and j < 70000:
                        _, _, g, f1, b = run_(**fx, **{one['cutpoint']: lambda lo, hi_: min(lo + j, hi_ - 1) if hi_ > lo else lo})
                        m = max(1, b[one['cutpoint']][1] - b[one['cutpoint']][0])
                        got.append(int(f1.split[i].c) if g[0] == [i] else None)
                        j += 1
                    res.append((f'cutpoint: picks at {i} {got}, available {av[v]}', got and sorted(map(str, got)) == sorted(map(str, range(*av[v])))))
                elif g[0] == [i] and v in av:
                    res.append((f'cutpoint: fixed at {i}, available {av[v]}', av[v][1] - av[v][0] == 1))
        if kp is not None:
            fix = {str(one['kind']): frac((kp + .5) / K)} if one['kind'] else {}
            got, j, m = [], 0, 1
            while j < m:
                v = {one['prune']: lambda lo, hi_: min(lo + j, hi_ - 1) if hi_ > lo else lo} if one['prune'] else {}
                _, _, g, f1, b = run_(**fix, **v)
                if one['prune']:
                    m = max(1, b[one['prune']][1] - b[one['prune']][0])
                got.append(g[1][0] if g[1] else None)
                j += 1
            if None not in got:
                res.append((f'prune: picks {got}, prunable {cp}', sorted(got) == sorted(cp)))
        return res


def main(k):
    for st in structs(3):
        C12(k, f'step 3-1 {sorted(st)}', Cfg(3, 2, 0, 1, minp=None, struct=[st]))
    for st in [set(), {1}]:
        C12(k, f'step 3-1 {sorted(st)} minimum', Cfg(3, 2, 3, 1, minp=1, struct=[st]))
    C12(k, 'step 2-1 []', Cfg(2, 4, 0, 1, minp=None, struct=[set()]))
    C12(k, 'step 3-1 [1]', Cfg(3, 3, 0, 1, minp=None, struct=[{1}]))
    for st in structs(4) if k.thorough else [{1, 3}, {1, 2, 3}, {1, 2, 3, 4, 5, 6, 7}]:
        C12(k, f'step 4-1 {sorted(st)}', Cfg(4, 2, 0, 1, minp=None, struct=[st]))
