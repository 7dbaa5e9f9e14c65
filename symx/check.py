"""
Harness and reporting.

A harness is: symbolic inputs, the real function, a precondition and a list of
goals (formulas over inputs, outputs and random draws). Every goal is decided
by the solver for all the values within the bounds; counterexamples are
replayed on the real compiled code, and only those that reproduce are reported.
"""
import json
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

import jax
import jax.numpy as jnp
from jax import tree_util as tu

from . import cells as C, interp as I, rnd, run, solve
from .cells import CTX, DT, Unsupported
from .evalz import Evaluator
from .interp import SA
from .spec import N, R

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
# quick tier: seconds after which no harness, respectively no query, is started
QUICK_BUDGET = 560
QUICK_DEADLINE = 720
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
ROOT_SEED = 20240607


class Inconclusive(Exception):
    pass


class DrawView:
    def __init__(self, kind, term, pos, shape, value, bounds, name):
        self.kind, self.term, self.pos, self.shape, self.value, self.bounds, self.name = kind, term, pos, shape, value, bounds, name


def _wrapn(c, dt):
    from .spec import I64, F64
    if dt.kind == 'f':
        return R(C.f2f(c, dt, F64))
    return N(C.i_convert(c, dt, I64))


def sym_draws():
    out = []
    for d in CTX.draws:
        bdt = d.dt
        out.append(DrawView(d.kind, d.term, d.pos, d.shape, _wrapn(d.cell, d.dt), [_wrapn(b, bdt) for b in d.bounds], d.name))
    return out


# unless a check says otherwise
ASSUME = [
    'floating-point quantities are mathematical reals (rounding, overflow and underflow are outside the claim)',
    'random draws satisfy the contract of their sampler (uniform, randint: within the bounds; normal: any real; gamma: positive)',
    'sizes (points, predictors, trees, depth) are those stated in the bounds; values, structures and draws are symbolic',
]


class Check:

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.errors = []
        self.undecided = []
        self.harnesses = []
        self.functions = set()
        self.prims = {}
        self.assumptions = []
        self.outside = []
        self.samples = 0
        self.extra = {}
        self.tier = TIER
        self.thorough = TIER == 'thorough'
        self.known_findings = load_known(pid)
        if not self.thorough:
            solve.DEADLINE = self.t0 + QUICK_DEADLINE

    # ------------------------------------------------------------- reporting

    def note(self, *a):
        print(f'[{self.pid} {time.time() - self.t0:7.1f}s]', *a, flush=True)

    def violation(self, what, data, key=None):
        if key is not None and key in self.known_findings:
            if key not in [k for k, _ in self.known]:
                self.known.append((key, what))
            return
        d = os.path.join(VERIF, 'replays', self.pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{len(self.violations)}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, what=what, data=data), f, indent=1, default=jsonable)
        self.violations.append((what, path))
        print(f'VIOLATION property={self.pid} replay={path}', flush=True)
        self.note('  ', what)

    def error(self, what):
        self.errors.append(what)
        self.note('ERROR', what)

    def undecide(self, harness, what):
        """ the solver gave no answer in time: the goal is left out of what is claimed for this run """
        self.undecided.append((harness, what))
        self.note(f'UNDECIDED {harness}: {what}')

    def late(self):
        return not self.thorough and time.time() - self.t0 > QUICK_BUDGET

    def absorb(self):
        self.functions |= CTX.functions
        for k, v in CTX.prims.items():
            self.prims[k] = self.prims.get(k, 0) + v

    def finish(self):
        for key, what in self.known:
            print(f'KNOWN-FINDING: property={self.pid} {key}: {what}')
        for key in self.known_findings:
            if key not in [k for k, _ in self.known]:
                self.note(f'known finding {key} was not observed in this run')
        if not self.assumptions:
            self.assumptions = list(ASSUME)
        st = solve.POOL.stats
        if self.undecided and not self.violations:
            # tolerated as long as most of the harnesses are decided; the evidence file says what was left out
            bad = len({h for h, _ in self.undecided})
            if 2 * bad > len(self.harnesses) + sum(h not in [x['name'] for x in self.harnesses] for h in {h for h, _ in self.undecided}):
                self.error(f'{bad} harnesses out of {len(self.harnesses)} were not decided')
        status = 'violation' if self.violations else 'error' if self.errors else 'held'
        bounds = '; '.join(f"{h['name']}: {h['bounds']}" for h in self.harnesses)
        unsat = st['unsat']
        ev = dict(
            property=self.pid,
            tier=TIER,
            seed=SEED,
            level='other',
            wall_s=round(time.time() - self.t0, 1),
            violations=len(self.violations),
            assumptions=self.assumptions,
            coverage=dict(
                explanation=(
                    'Solver-based bounded verification of the real code: the jaxprs traced from the functions listed in '
                    '"functions" (or the Python code itself, executed symbolically) were executed on symbolic inputs and every goal was '
                    f'decided by the solver for all values within the stated bounds. Status: {status}. '
                    f'{unsat} queries unsat (goal holds for all values), {st["sat"]} sat (witnesses and counterexamples), '
                    f'{st["unknown"]} unknown; ' + (f'NOT DECIDED, hence not covered: {self.undecided}; ' if self.undecided else '')
                    + f'solver time {st["time"]:.1f} s. Bounds: {bounds}'),
                method='symbolic execution of the traced jaxpr + SMT (z3)',
                functions=sorted(self.functions),
                primitives=self.prims,
                harnesses=self.harnesses,
                bounds=bounds,
                queries=st['queries'], unsat=st['unsat'], sat=st['sat'], unknown=st['unknown'],
                solver_seconds=round(st['time'], 2), max_query_seconds=round(st['max_time'], 2),
                assumptions=self.assumptions,
                outside_claim=self.outside,
                validated_executions=self.samples,
                known_findings=[k for k, _ in self.known],
                errors=self.errors,
                undecided=self.undecided,
                **self.extra,
            ),
        )
        write_evidence(self.pid, ev)
        self.note(f'{status}: {len(self.harnesses)} harnesses, {st["queries"]} queries, solver {st["time"]:.1f}s, '
                  f'{self.samples} validated executions')
        if self.violations:
            return 1
        if self.errors:
            return 2
        return 0

    # -------------------------------------------------------- single queries

    def prove(self, name, base, goals, bounds='', timeout=120, replay=None, assume_sat=True):
        """
        decide goals [(name, formula)] under base; replay(name, model) -> (what, data) if the
        counterexample reproduces on the real code, None otherwise
        """
        if self.violations:
            self.note(f'{name}: skipped, a violation was already found')
            return
        t = time.time()
        base = [C.zb(f) for f in base]
        self.harnesses.append(dict(name=name, bounds=bounds, goals=len(goals)))
        vac = solve.POOL.submit(solve.smt2(C.cone(base)), timeout)
        jobs = []
        for n, f in goals:
            if f is True:
                continue
            jobs.append((n, solve.POOL.submit(solve.smt2(C.cone(base + [C.zb(C.Not(f))])), timeout)))
        r = vac()
        if r.status != 'sat' and assume_sat:
            self.error(f'{name}: the assumptions are {r}')
        for n, h in jobs:
            r = h()
            if r.status == 'unsat':
                continue
            if r.status != 'sat':
                self.undecide(name, f'{n}: {r}')
                continue
            try:
                got = replay(n, r.model or {}) if replay else None
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                self.error(f'{name}: replay of the counterexample of {n}: {type(e).__name__}: {str(e)[:300]}')
                continue
            if got == 'undecided':
                self.undecide(name, f'{n}: the counterexamples are excluded by code that is stubbed')
            elif got is None:
                self.error(f'{name}: counterexample of {n} did not reproduce on the real code: {str(r.model)[:400]}')
            else:
                self.violation(f'{name}: {got[0]}', got[1])
                break
        self.note(f'{name}: {len(goals)} goals, {len(jobs)} queries, {time.time() - t:.1f}s')

    # --------------------------------------------------------------- harness

    def harness(self, name, **kw):
        return Harness(self, name, **kw)


def write_evidence(pid, ev):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev['coverage'] = json.loads(json.dumps(ev['coverage'], default=jsonable))
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=jsonable)


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                f = dict(x.split('=', 1) for x in line.split()[1:3])
                if f['property'] == pid:
                    out[f['key']] = line
    return out


def jsonable(x):
    if isinstance(x, (np.ndarray, jax.Array)):
        if I.is_key_array(x):
            return 'key'
        return np.asarray(x).tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (set, tuple)):
        return list(x)
    return str(x)


class Harness:
    """
    inputs : function () -> tuple of arguments (pytrees with symbolic leaves); may append to CTX.axioms
    fn     : the real function
    pre    : function (args) -> list of formulas
    goals  : function (args, outs, draws) -> list of (name, formula)
    reach  : function (args, outs, draws) -> list of (name, formula): must be satisfiable (vacuity guard)
    """

    def __init__(self, check, name, *, inputs, fn, goals, pre=None, reach=None, bounds='', float_mode='real', nonlin='exact',
                 timeout=150, unwind=64, cubes=None, group=True, tolerant=True, real_fn=None, key=None, samples=2, post=None,
                 maxreal=60, fallback=None, concrete_goals=None, raises=False, compare=True, variants=2, cutlog=False, split=False, before=None):
        self.before = before
        self.split = split
        self.cutlog = cutlog
        self.variants = variants
        self.k = check
        self.name = name
        self.inputs, self.fn, self.goals, self.pre, self.reach = inputs, fn, goals, pre, reach
        self.bounds = bounds
        self.float_mode, self.nonlin = float_mode, nonlin
        self.timeout, self.unwind, self.cubes, self.group = timeout, unwind, cubes, group
        self.real_fn = real_fn or fn
        self.keyf = key
        self.samples = samples
        self.maxreal = maxreal
        self.concrete_goals = concrete_goals or goals
        self.raises = raises
        self.compare = compare
        self.run()

    def run(self):
        k = self.k
        if k.violations:
            k.note(f'{self.name}: skipped, a violation was already found')
            return
        if k.late():
            k.undecide(self.name, 'skipped, the time is over')
            return
        try:
            self._run()
        except Unsupported as e:
            k.error(f'{self.name}: cannot encode: {e}')
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        except Inconclusive as e:
            k.error(f'{self.name}: {e}')
        except Exception as e:
            k.error(f'{self.name}: {type(e).__name__}: {str(e)[:500]}')
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()

    def _run(self):
        k = self.k
        CTX.reset(float_mode=self.float_mode, nonlin=self.nonlin)
        CTX.functions = set()
        CTX.keyuse = []
        CTX.cutlog = self.cutlog
        t = time.time()
        args = self.inputs()
        self.args = args
        try:
            outs = run.symrun(self.fn, *args, unwind=self.unwind)
        except Unsupported:
            raise
        except Exception as e:
            if self.raises:
                # the real code fails on every input of this shape
                self.crash(e)
                return
            raise
        self.outs = outs
        k.absorb()
        draws = sym_draws()
        self.draws = draws
        pre = [C.zb(f) for f in (self.pre(args) if self.pre else [])]
        goals = self.goals(args, outs, draws)
        reach = self.reach(args, outs, draws) if self.reach else []
        base = pre + CTX.axioms
        for u in CTX.unwind:
            goals = [('unwinding assertion: the loop bound is enough', u)] + goals
        tenc = time.time() - t
        t = time.time()
        rec = dict(name=self.name, bounds=self.bounds, goals=len(goals), encode_seconds=round(tenc, 2))
        k.harnesses.append(rec)
        # vacuity: the precondition, and each witness, must be satisfiable
        wit = [('precondition', True)] + list(reach)
        handles = []
        for n, f in wit:
            if f is False:
                raise Inconclusive(f'witness "{n}" is unreachable in the encoding')
            handles.append((n, self.query(base + [C.zb(f)])))
        # goals
        groups = {}
        # (name, formula, stronger formula to be tried first)
        strong = {gl[0]: gl[2] for gl in goals if len(gl) > 2}
        goals = [gl[:2] for gl in goals]
        for n, f in goals:
            g = n.split(':')[0] if self.group else n
            groups.setdefault(g, []).append((n, f))
        jobs = []
        trivial = 0
        cubes = [('', [])] if not self.cubes else self.cubes(args)
        for g, lst in groups.items():
            f = C.And(*[x for _, x in lst])
            if f is True:
                trivial += 1
                continue
            for cn, cube in cubes:
                fs = base + [C.zb(c) for c in cube] + [C.zb(C.Not(f))]
                if any(n in strong for n, _ in lst):
                    st = C.And(*[strong.get(n, x) for n, x in lst])
                    first = self.query(fs[:-1] + [C.zb(C.Not(st))], True)

                    def h(first=first, fs=fs):
                        r = first()
                        return r if r.status == 'unsat' else self.query(fs, True)()
                else:
                    h = self.query(fs, True)
                jobs.append((g, cn, lst, cube, fs, h))
        rec['queries'] = len(jobs)
        rec['trivially_valid'] = trivial
        for n, h in handles:
            r = h()
            if r.status == 'unsat':
                raise Inconclusive(f'vacuous: witness "{n}" is unsatisfiable')
            if r.status != 'sat':
                if n == 'precondition' or self.nonlin == 'uf':
                    k.note(f'{self.name}: witness {n}: {r}')
                rec.setdefault('undecided_witnesses', []).append(n)
                continue
            self.validate(n, r)
        if len(rec.get('undecided_witnesses', ())) == len(handles):
            k.undecide(self.name, 'no reachability witness was decided')
        for g, cn, lst, cube, fs, h in jobs:
            r = h()
            if r.time > 20 and r.status == 'unsat':
                k.note(f'{self.name}: goal {g} {cn}: {r}')
            if r.status == 'unsat':
                continue
            if r.status == 'sat':
                try:
                    self.counterexample(g, lst, base + [C.zb(c) for c in cube], r)
                except Inconclusive as e:
                    k.error(f'{self.name}: {e}')
                if k.violations:
                    break
                continue
            k.undecide(self.name, f'goal {g} {cn}: {r}')
        rec['solve_seconds'] = round(time.time() - t, 2)
        k.note(f'{self.name}: {len(goals)} goals, {len(jobs)} queries, encode {tenc:.1f}s, solve {time.time() - t:.1f}s')

    def query(self, formulas, goal=False):
        fs = C.cone(formulas)
        if self.split and goal:
            return solve.POOL.submit(solve.smt2(fs), self.timeout, solver='split')
        if self.variants == 1:
            return solve.POOL.submit(solve.smt2(fs), self.timeout)
        a, b = solve.smt2(fs), solve.smt2(fs, True)
        v = [(a, {}), (b, {}), (b, dict(params={'smt.random_seed': 7, 'smt.arith.solver': 2})), (a, dict(solver='cvc5'))]
        return solve.POOL.race(v[:self.variants], self.timeout)

    # -------------------------------------------------------------- concrete

    def concrete_env(self, model, rng=None, inputs=1., draws=1.):
        """
        environment: model values, reals rounded to the dtypes of the inputs;
        rng: random values instead of a fraction of the real inputs and draws
        """
        # auxiliary definitions (square roots...) are recomputed, the model may be only abstractly right
        env = {a: b for a, b in model.items() if a not in CTX.defs}
        self.frac = {}
        leaves = tu.tree_leaves(self.args, is_leaf=run.leaf)
        for x in leaves:
            if isinstance(x, SA) and x.dt.kind == 'f':
                for c in x.c.reshape(-1):
                    if isinstance(c, C.RV) and z3.is_const(c.e) and c.e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        n = c.e.decl().name()
                        v = env.get(n, Fraction(0))
                        if rng is not None and rng.random() < inputs:
                            v = rng.uniform(.05, .95) if n in CTX.unit else rng.uniform(.3, 2) if n in CTX.pos else rng.normal()
                        v = x.dt.np.type(float(v))
                        if not np.isfinite(v):
                            v = x.dt.np.type(1e30)
                        env[n] = Fraction(float(v))
        for d in CTX.draws:
            n = d.name
            if d.kind in ('uniform', 'normal', 'gamma'):
                v = float(env.get(n, Fraction(1 if d.kind == 'gamma' else 0)))
                if rng is not None and rng.random() < draws:
                    if d.kind == 'normal':
                        v = rng.normal()
                    elif d.kind == 'gamma':
                        v = rng.uniform(.5, 3)
                    elif d.shape != ():
                        v = (0., 1 - 2. ** -24, rng.random())[rng.integers(3)]
                    elif rng.random() < .5:
                        v *= rng.uniform(.9, 1)
                    else:
                        self.frac[n] = rng.random()
                env[n] = Fraction(float(d.dt.np.type(v)))
        return env

    def concrete_args(self, ev, key):
        return run.concretize(self.args, ev, key)

    def real(self, env):
        """ run the real code on the assignment; returns (args, outs, draws) concrete """
        ev = Evaluator(env)
        key = jax.random.key(ROOT_SEED)
        cargs = self.concrete_args(ev, key)
        rnd.reset_table(SEED)
        def value(d):
            f = self.frac.get(d.name)
            return env_value(d, ev) if f is None else (lambda lo, hi: lo + f * (hi - lo))
        rnd.prescribe(CTX.draws, value, {'root': key})
        if self.before:
            self.before()
        couts = run.realrun(self.real_fn, *cargs)
        jax.effects_barrier()
        log = {}
        for kind, kd, pos, v, b in rnd.TABLE.log:
            log[(kind, kd, pos)] = (v, b)
        dv = []
        cache = {}
        for d in CTX.draws:
            if d.term not in cache:
                cache[d.term] = tuple(int(x) for x in np.asarray(jax.random.key_data(I.real_key(d.term, {'root': key}))))
            got = log.get((d.kind, cache[d.term], d.pos))
            if got is None:
                continue
            mk = (lambda x: N(int(x))) if d.dt.kind in 'iu' else (lambda x: R(np.float64(x)))
            dv.append(DrawView(d.kind, d.term, d.pos, d.shape, mk(got[0]), [mk(b) for b in got[1]], d.name))
        cargs_np = tu.tree_map(lambda x: x if I.is_key_array(x) else np.asarray(x), cargs)
        return ev, cargs_np, couts, dv

    def validate(self, n, r):
        """ translator validation: the encoding and the real code agree on the witness """
        if self.float_mode == 'fp' or not self.compare:
            rngs = [None]
        else:
            rngs = [None] + [np.random.default_rng(SEED * 1000 + j) for j in range(self.samples)]
        fails = []
        for rng in rngs:
            env = self.concrete_env(r.model, rng)
            try:
                ev, cargs, couts, dv = self.real(env)
            except Exception as e:
                if self.raises:
                    self.crash(e, env)
                    return
                raise
            if not self.compare:
                self.k.samples += 1
                continue
            # draws may have been adjusted by rounding: evaluate the encoding on what the code received
            byname = {d.name: d for d in dv}
            env2 = dict(env)
            for d in CTX.draws:
                if d.name in byname and d.dt.kind == 'f':
                    env2[d.name] = Fraction(float(byname[d.name].value.c))
                elif d.name in byname and d.dt.kind in 'iu':
                    env2[d.name] = int(byname[d.name].value.c) & ((1 << d.dt.w) - 1)
            try:
                ev2 = Evaluator(env2)
                mism = self.compare_outputs(ev2, couts)
            except (Unsupported, OverflowError, ZeroDivisionError) as e:
                mism = f'evaluation: {e}'
            if mism is None:
                self.k.samples += 1
                return
            fails.append(mism)
            if self.broken(n, cargs, couts, dv):
                return
        if all(f.startswith('evaluation') for f in fails):
            raise Inconclusive(f'witness "{n}" could not be evaluated: {fails[0]}')
        raise Inconclusive(f'the encoding and the real code disagree on witness "{n}": {fails}')

    def broken(self, n, cargs, couts, dv):
        """ the real code disagrees with the encoding on a witness: does it break the property there? """
        try:
            pre = self.pre(cargs) if self.pre else []
            if not all(bool(p) if C.isb(p) else False for p in pre):
                return False
            failed = [g for g, f, *_ in self.concrete_goals(cargs, couts, dv) if not (f is True or (C.isb(f) and bool(f)))]
        except Exception:
            return False
        if not failed or self.cutlog:
            return False
        key = self.keyf(cargs, couts, failed) if self.keyf else None
        self.k.violation(f'{self.name}: {failed[0]} (on the witness of "{n}")',
                         dict(harness=self.name, bounds=self.bounds, failed=failed[:20], inputs=cargs, outputs=couts), key)
        return True

    def compare_outputs(self, ev, couts):
        so = tu.tree_leaves_with_path(self.outs, is_leaf=run.leaf) if hasattr(tu, 'tree_leaves_with_path') else \
            tu.tree_flatten_with_path(self.outs, is_leaf=run.leaf)[0]
        co = tu.tree_leaves(couts)
        for (path, s), c in zip(so, co):
            if isinstance(s, SA):
                if s.dt.kind == 'k':
                    continue
                a = ev.array(s)
            elif I.is_key_array(s):
                continue
            else:
                a = np.asarray(s)
            c = np.asarray(c)
            if a.shape != c.shape:
                return f'{path}: shape'
            if a.dtype.kind == 'f':
                if self.float_mode == 'fp':
                    ok = np.array_equal(a.astype(c.dtype), c, equal_nan=True)
                else:
                    sc = max(1.0, np.max(np.abs(np.where(np.isfinite(c), c, 0)), initial=0))
                    with np.errstate(all='ignore'):
                        ok = np.all((np.abs(a - c) <= 2e-3 * sc) | (a == c) | (np.isnan(a) & np.isnan(c)))
            else:
                ok = np.array_equal(a.astype(np.int64), c.astype(np.int64))
            if not ok:
                return f'{tu.keystr(path)}: encoding {a.tolist()} real {c.tolist()}'
        return None

    def counterexample(self, g, lst, base, r):
        """ replay the model; try also other float values compatible with its discrete part """
        k = self.k
        if r.model is None:
            raise Inconclusive(f'goal {g}: sat without a model')
        tried = []
        if self.replay(r.model, tried):
            return
        if os.environ.get('VERIF_DEBUG'):
            json.dump({a: jsonable(b) for a, b in sorted(r.model.items())}, open('/tmp/model.json', 'w'), indent=0)
        refined = 'not refined'
        if self.nonlin == 'uf' and self.float_mode == 'real':
            for fix in (True, False):
                refined, ok = self.refine(g, r.model, fix, tried)
                if ok:
                    return
        names = [n for n, _ in lst][:3]
        raise Inconclusive(f'counterexample of goal {g} ({names}) did not reproduce on the real code ({refined}): {tried[-6:]}')

    def refine(self, g, model, fix, tried):
        """ abstract counterexample: repeat with exact arithmetic (fix: and the discrete part of the model) """
        saved, sargs = dict(CTX.__dict__), self.args
        self.k.note(f'{self.name}: refining the counterexample of {g} with exact arithmetic' + (', fixed discrete part' if fix else ''))
        try:
            CTX.reset(float_mode=self.float_mode, nonlin='exact')
            CTX.cutlog = self.cutlog
            if fix:
                CTX.fixed = {a: b for a, b in model.items() if isinstance(b, (bool, int, np.integer)) and not isinstance(b, Fraction)}
            self.args = args = self.inputs()
            outs = run.symrun(self.fn, *args, unwind=self.unwind)
            pre = [C.zb(f) for f in (self.pre(args) if self.pre else [])]
            goals = [f for n, f, *_ in self.goals(args, outs, sym_draws()) if (n.split(':')[0] if self.group else n) == g]
            f = C.And(*goals)
            if f is True:
                return 'exact goal trivial', not fix
            r = self.query(pre + CTX.axioms + [C.zb(C.Not(f))])()
            if r.status == 'sat' and r.model is not None:
                m = dict(r.model)
                for a, b in CTX.fixed.items():
                    m.setdefault(a, b)
                return 'sat', self.replay(m, tried)
            if r.status == 'unsat' and not fix:
                # the exact encoding proves the goal: the counterexample was an artifact of the abstraction
                self.k.note(f'{self.name}: goal {g} holds with exact arithmetic')
                return 'holds', True
            return f'exact: {r}', False
        finally:
            CTX.__dict__.update(saved)
            self.args = sargs

    replay_time = 150

    def replay(self, model, tried):
        k = self.k
        cands = [(None, 0., 0.)]
        if self.float_mode != 'fp':
            for j in range(self.maxreal):
                a, b = [(0., .5), (.5, .5), (1., .3), (0., .2), (0., 1.), (1., .5), (1., 1.)][j % 7]
                cands.append((np.random.default_rng(SEED * 77 + j), a, b))
        start = time.time()
        for rng, fi, fd in cands:
            if time.time() - start > self.replay_time:
                tried.append('out of time')
                break
            env = self.concrete_env(model, rng, fi, fd)
            try:
                ev, cargs, couts, dv = self.real(env)
                pre = [C.zb(f) if not C.isb(f) else f for f in (self.pre(cargs) if self.pre else [])]
                if not all(bool(p) if C.isb(p) else False for p in pre):
                    tried.append('precondition not met after rounding')
                    continue
                res = self.concrete_goals(cargs, couts, dv)
            except Exception as e:
                if self.raises:
                    self.crash(e, env)
                    return True
                tried.append(f'{type(e).__name__}: {e}'[:200])
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                continue
            failed = [n for n, f, *_ in res if not (f is True or (C.isb(f) and bool(f)))]
            if failed:
                key = self.keyf(cargs, couts, failed) if self.keyf else None
                k.violation(f'{self.name}: {failed[0]}' + (f' (and {len(failed) - 1} more)' if len(failed) > 1 else ''),
                            dict(harness=self.name, bounds=self.bounds, failed=failed[:20], inputs=cargs, outputs=couts,
                                 draws=[(d.kind, d.pos, d.value.c, [b.c for b in d.bounds]) for d in dv]), key)
                return True
            tried.append('no failure')
        return False

    def crash(self, e, env=None):
        self.k.violation(f'{self.name}: the code fails with {type(e).__name__}: {str(e)[:300]}',
                         dict(harness=self.name, bounds=self.bounds, env=None if env is None else {a: str(b) for a, b in env.items()}),
                         self.keyf(None, None, ['crash']) if self.keyf else None)


def env_value(d, ev):
    v = ev.cell(d.cell)
    return v


def main(pid, fn):
    k = Check(pid)
    try:
        fn(k)
    except Exception as e:
        traceback.print_exc()
        k.error(f'{type(e).__name__}: {e}')
    code = k.finish()
    sys.stdout.flush()
    solve.shutdown()
    os._exit(code)
