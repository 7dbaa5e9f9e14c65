"""C08: acceptance rule."""
from .mcmc import *
from symx import rnd as RND


def pair(bart, key):
    """ the step, and the step with the same proposals when there is no minimum of points in the leaves """
    out = mcmcstep.step(bart, key)
    free = bart if bart['min_points_per_leaf'] is None else dict(bart, min_points_per_leaf=jnp.zeros_like(bart['min_points_per_leaf']))
    return dict(new=out, free=mcmcstep.step(free, key))


def same_tree(a, b):
    """ same structure and rules """
    c = []
    for i in range(1, a.h):
        c += [Iff(a.dec(i), b.dec(i)), Implies(And(a.dec(i), b.dec(i)), And(a.var[i] == b.var[i], a.split[i] == b.split[i]))]
    return all_(c)


def grown(a, b):
    return any_([And(b.dec(i), Not(a.dec(i))) for i in range(1, a.h)])


def has_rule(tree, i, maxs):
    out = []
    for v in range(len(maxs)):
        l, r = tree.range_of(i, N(v), maxs)
        out.append(l < r)
    return any_(out)


def subst(f, pairs):
    return z3.substitute(C.zb(f), *pairs) if pairs else f


class C08:
    def __init__(self, k, name, cfg, **kw):
        self.cfg = cfg
        me = self
        a = dict(nonlin='uf', group=False, timeout=150, cutlog=True, samples=1)
        a.update(kw)
        Harness(k, name, inputs=lambda: (sym_state(cfg), I.root_key()), fn=pair, goals=me.goals, pre=lambda a: pre_state(a[0]),
                concrete_goals=me.concrete, bounds=str(cfg), **a)

    def goals(self, args, out, draws):
        b0, b1, b2 = args[0], merge(args[0], out['new']), merge(args[0], out['free'])
        f0, f1, f2, pts = forest(b0), forest(b1), forest(b2), points(b0)
        nt, h = len(f0), f0[0].h
        cuts = list(CTX.cuts)
        unit = {d.name: d for d in draws if d.kind == 'uniform' and all(C.isconcf(x.c) for x in d.bounds)
                and [float(x.c) for x in d.bounds] == [0., 1.]}
        T = [(c[0], z3.BoolVal(True)) for c in cuts]
        F = [(c[0], z3.BoolVal(False)) for c in cuts]
        li0, li1 = ints(b0['leaf_indices']), ints(b1['leaf_indices'])
        maxs = list(ints(b0['max_split']))
        gp, pp = ints(b1['grow_prop_count']), ints(b1['prune_prop_count'])
        self.acc = {}
        prop = zvars(subst(all_([And(same_tree(f0[s], f1[s]), same_tree(f0[s], f2[s])) for s in range(nt)]), T))
        res, cut, before = [], [], set()
        normals = {d.name for d in draws if d.kind == 'normal'}
        for t in range(nt):
            own = []
            same = same_tree(f0[t], f1[t])
            keep = And(same, all_([li0[t, i] == li1[t, i] for i in range(len(pts))]))
            own.append((f'rejected: tree {t} is unchanged when the ratio is too small', subst(keep, F)))
            own.append((f'rejected: memberships of tree {t} are unchanged when its structure is',
                        Implies(same, all_([li0[t, i] == li1[t, i] for i in range(len(pts))]))))
            # which comparisons decide, and what they compare
            names = zvars(C.zb(same))
            for v, op, a, b in cuts:
                if v.decl().name() not in names:
                    continue
                on, off = subst(same, [(v, z3.BoolVal(True))]), subst(same, [(v, z3.BoolVal(False))])
                rel = Xor_(on, off)
                us = (zvars(real_e(R(a))) | zvars(real_e(R(b)))) & set(unit)
                us = (us - prop) or us
                self.acc.setdefault(t, set()).update(us)
                d = R(a) - R(b) if op in ('le', 'lt') else R(b) - R(a)
                lp = reals(b1['ratios']['log_trans_prior'])[t] + reals(b1['ratios']['log_likelihood'])[t]
                gr = subst(grown(f0[t], f1[t]), [(v, z3.BoolVal(True))])
                gr = Or(gr, subst(grown(f0[t], f1[t]), [(v, z3.BoolVal(False))]))
                if len(us) != 1:
                    own.append((f'rule: {v}: one uniform draw on [0, 1) decides', Not(rel)))
                    continue
                u, = us
                lu = R(C.RV(1 - z3.Real(u))).log()
                # acceptance is  log(1 - u) <= log ratio
                pos = Implies(on, off)   # accepted when v is true
                for nm, c, sgn in (('grow', gr, 1.), ('prune', Not(gr), -1.)):
                    want = lu - lp * sgn
                    own.append((f'rule: tree {t}, comparison {v}, {nm}',
                                Implies(And(rel, c), And(Implies(Not(on), eqlog(d, want)), Implies(on, eqlog(-d, want))))))
            # what is possible
            a1, a2 = same, same_tree(f0[t], f2[t])
            for i in range(1, h):
                g = And(f2[t].dec(i), f0[t].isleaf(i))
                cnt = leaf_counts(f2[t], pts)
                mp = N(0) if b0['min_points_per_leaf'] is None else ints(b0['min_points_per_leaf'])
                ok = And(cnt[2 * i] >= mp, cnt[2 * i + 1] >= mp)
                own.append((f'possible: tree {t} grows at {i}', subst(Implies(And(g, ok), same_tree(f1[t], f2[t])), T)))
                own.append((f'possible: tree {t} does not grow at {i}', subst(Implies(And(g, Not(ok)), same), T)))
                p = And(f0[t].dec(i), f2[t].isleaf(i))
                own.append((f'possible: tree {t} is pruned at {i}', subst(Implies(p, same_tree(f1[t], f2[t])), T)))
            own.append((f'possible: tree {t}: no move', subst(Implies(a2, a1), T)))
            if nt == 1:
                own.append(('possible: prune moves are possible', subst(Implies(pp == 1, Not(a2)), T)))
                allr = all_([Implies(f0[t].isleaf(i), has_rule(f0[t], i, maxs)) for i in range(1, h)])
                own.append(('possible: grow moves are possible', subst(Implies(And(gp == 1, allr), Not(a2)), T)))
            # nothing else depends on the acceptance draw
            us = self.acc.get(t, set())
            rest = [C.zb(same), C.zb(same_tree(f1[t], f2[t]))]
            leak = set().union(*[zvars(e) for e in rest]) & us
            for u in leak:
                p = [(z3.Real(u), z3.Real(u + '_other'))]
                own.append((f'independent: the proposal for tree {t} does not depend on {u}',
                            Implies(z3.And(z3.Real(u + '_other') >= 0, z3.Real(u + '_other') < 1),
                                    Iff(C.zb(same), z3.substitute(C.zb(same), *p)))))
            if cut:
                own = [(n, subst(f, cut)) for n, f in own]
            res += own
            if t + 1 < nt:
                es = [real_e(x) for x in f1[t].leaf[1:] if not C.isconcf(x.c)]
                zs = set().union(*[zvars(e) for e in es]) & normals if es else set()
                cut = cut + [(e, z3.Real(f'cut_{t}_{i}')) for i, e in enumerate(base_terms(es, zs - before))]
                before |= zs
        seen = [self.acc.get(t, set()) for t in range(nt)]
        for t in range(nt):
            for s in range(t):
                res.append((f'distinct: trees {s} and {t} use different acceptance draws', not (seen[t] & seen[s])))
        return res

    # ------------------------------------------------- replay on the real code

    def rerun(self, cargs, values, free=False):
        sav = dict(RND.TABLE.values)
        key = jax.random.key(20240607)
        for d in CTX.draws:
            if d.name in values:
                kd = tuple(int(x) for x in np.asarray(jax.random.key_data(I.real_key(d.term, {'root': key}))))
                RND.TABLE.values[(d.kind, kd, d.pos)] = values[d.name]
        try:
            o = run.realrun(pair, jax.tree_util.tree_map(jnp.asarray, cargs[0]), key)
            return merge(cargs[0], o['free' if free else 'new'])
        finally:
            RND.TABLE.values = sav

    def concrete(self, cargs, out, draws):
        b0 = cargs[0]
        f0, pts = forest(b0), points(b0)
        res = []
        val = {d.name: float(d.value.c) for d in draws}
        unit = [d.name for d in draws if d.kind == 'uniform' and [float(x.c) for x in d.bounds] == [0., 1.]]
        h = f0[0].h
        hi = 1 - 2. ** -24
        for t in range(len(f0)):
            acc = sorted(self.acc.get(t) or unit)
            # proposal
            f2 = forest(self.rerun(cargs, dict.fromkeys(acc, hi), True))[t]
            if same_tree(f0[t], f2):
                # no proposal observed; the step must not change the tree either, unless the move is unlikely
                continue
            gr = grown(f0[t], f2)
            mp = 0 if b0['min_points_per_leaf'] is None else int(b0['min_points_per_leaf'])
            ok = True
            if gr:
                i = [i for i in range(1, h) if f2.dec(i) and f0[t].isleaf(i)][0]
                cnt = leaf_counts(f2, pts)
                ok = all(int(cnt[c].c) >= mp for c in (2 * i, 2 * i + 1))
            us = [0., hi, val[acc[0]]]
            b1 = merge(b0, out['new'])
            lp = [float(np.asarray(b1['ratios'][n])[t]) for n in ('log_trans_prior', 'log_likelihood')]
            s = (1 if gr else -1) * sum(lp)
            if s < 0:
                us += [1 - np.exp(s) * f for f in (.99, 1.01, .9, 1.1, .5, 1.5) if np.exp(s) * f <= 1]
            for u in us:
                b1 = self.rerun(cargs, dict.fromkeys(acc, min(max(u, 0), hi)))
                f1 = forest(b1)[t]
                margin = np.log1p(-min(max(u, 0), hi)) - s
                if abs(margin) < 2e-3 * (1 + sum(map(abs, lp))):
                    continue
                want = ok and margin <= 0
                good = same_tree(f1, f2) if want else same_tree(f0[t], f1) and \
                    np.array_equal(np.asarray(b1['leaf_indices'])[t], np.asarray(b0['leaf_indices'])[t])
                res.append((f'rule: tree {t}, acceptance draw {u}, log ratio {s}, children populated {ok}: accepted {not same_tree(f0[t], f1)}', bool(good)))
        return res


def main(k):
    for st in structs(2):
        C08(k, f'step 2-1 {sorted(st)}', Cfg(2, 1, 3, 1, sym_p=False, struct=[st], ratios=True))
    for st in structs(3):
        C08(k, f'step 3-1 {sorted(st)}', Cfg(3, 2, 2, 1, sym_p=False, struct=[st], ratios=True))
    C08(k, 'step 3-1 without minimum', Cfg(3, 2, 1, 1, minp=None, sym_p=False, struct=[{1}], ratios=True))
    for a in structs(2):
        for b in structs(2):
            C08(k, f'step 2-2 {sorted(a)} {sorted(b)}', Cfg(2, 1, 2, 2, sym_p=False, struct=[a, b], ratios=True))
