"""Solver worker: reads one SMT-LIB2 job (JSON line) at a time, answers with a JSON line."""
import json
import sys
import time

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def value(v):
    import z3
    if z3.is_bv_value(v):
        return ['bv', v.as_long()]
    if z3.is_true(v) or z3.is_false(v):
        return ['b', z3.is_true(v)]
    if z3.is_rational_value(v):
        return ['q', str(v.numerator_as_long()), str(v.denominator_as_long())]
    if z3.is_int_value(v):
        return ['i', str(v.as_long())]
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return ['q', str(a.numerator_as_long()), str(a.denominator_as_long())]
    if z3.is_fp_value(v):
        b = z3.simplify(z3.fpToIEEEBV(v))
        if v.isNaN():
            return ['fp', [v.sort().ebits(), v.sort().sbits()], 'nan']
        return ['fp', [v.sort().ebits(), v.sort().sbits()], b.as_long()]
    return None


def solve_z3(job):
    import z3
    z3.reset_params()
    z3.set_param('timeout', int(job['timeout'] * 1000))
    for k, v in job.get('params', {}).items():
        z3.set_param(k, v)
    tac = job.get('tactic')
    s = z3.Tactic(tac).solver() if tac else z3.Solver()
    s.from_string(job['smt2'])
    s.set('timeout', int(job['timeout'] * 1000))
    t = time.time()
    r = s.check()
    out = dict(result=str(r), time=time.time() - t)
    if r == z3.sat:
        m = s.model()
        d = {}
        for decl in m.decls():
            if decl.arity() == 0:
                v = value(m[decl])
                if v is not None:
                    d[decl.name()] = v
        out['model'] = d
    elif r == z3.unknown:
        out['reason'] = s.reason_unknown()
    return out


def find_split(e, seen=None):
    """ condition of an outermost real-valued ite, without real-valued ites in the condition """
    import z3
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_real(x):
            c = find_split(x.arg(0))
            return x.arg(0) if c is None else c
        stack.extend(reversed(x.children()))
    return None


def get_vars(e, cache):
    import z3
    i = e.get_id()
    r = cache.get(i)
    if r is not None:
        return r[1]
    out, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add((x.decl().name(), z3.is_real(x)))
        else:
            stack.extend(x.children())
    cache[i] = (e, out)
    return out


def solve_split(job):
    """ case splitting on the conditions of real-valued ites, then one arithmetic query per consistent case """
    import z3
    z3.reset_params()
    t0 = time.time()
    deadline = t0 + job['timeout']
    fs = list(z3.parse_smt2_string(job['smt2']))
    base, goal = fs[:-1], fs[-1]
    cache = {}
    realax = [f for f in base if all(r for _, r in get_vars(f, cache))]
    feas = z3.Solver()
    feas.set('timeout', 5000)
    for f in base:
        feas.add(f)
    stats = dict(cases=0, splits=0, pruned=0)

    def light(g, path):
        vs = set(get_vars(g, cache))
        ax, changed = [], True
        pool = realax + [p for p in path if all(r for _, r in get_vars(p, cache))]
        left = list(pool)
        while changed:
            changed = False
            for f in list(left):
                if get_vars(f, cache) & vs:
                    vs |= get_vars(f, cache)
                    ax.append(f)
                    left.remove(f)
                    changed = True
        s = z3.Solver()
        s.set('timeout', int(max(1, min(20, deadline - time.time())) * 1000))
        for f in ax:
            s.add(f)
        s.add(g)
        return s.check()

    def rec(g, path):
        g = z3.simplify(g)
        if z3.is_false(g):
            return None
        if time.time() > deadline:
            return 'timeout'
        c = find_split(g)
        if c is None:
            stats['cases'] += 1
            if not z3.is_true(g) and light(g, path) == z3.unsat:
                return None
            s = z3.Solver()
            s.set('timeout', int(max(1, deadline - time.time()) * 1000))
            for f in base + path:
                s.add(f)
            s.add(g)
            r = s.check()
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                return 'undecided case: ' + s.reason_unknown()
            return s.model()
        stats['splits'] += 1
        for v in (True, False):
            lit = c if v else z3.Not(c)
            feas.push()
            feas.add(lit)
            if feas.check() != z3.unsat:
                r = rec(z3.substitute(g, (c, z3.BoolVal(v))), path + [lit])
                if r is not None:
                    return r
            else:
                stats['pruned'] += 1
            feas.pop()
        return None
    sys.setrecursionlimit(10000)
    r = rec(goal, [])
    out = dict(time=time.time() - t0, reason=str(stats))
    if r is None:
        out['result'] = 'unsat'
    elif isinstance(r, str):
        out['result'] = 'unknown'
        out['reason'] = r + ' ' + str(stats)
    else:
        out['result'] = 'sat'
        d = {}
        for decl in r.decls():
            if decl.arity() == 0:
                v = value(r[decl])
                if v is not None:
                    d[decl.name()] = v
        out['model'] = d
    return out


def solve_cvc5(job):
    import cvc5
    tm = cvc5.TermManager()
    s = cvc5.Solver(tm)
    s.setOption('tlimit-per', str(int(job['timeout'] * 1000)))
    s.setOption('produce-models', 'true')
    for k, v in job.get('params', {}).items():
        s.setOption(k, v)
    p = cvc5.InputParser(s)
    sm = cvc5.SymbolManager(tm)
    p = cvc5.InputParser(s, sm)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, job['smt2'], 'job')
    t = time.time()
    r = None
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        o = c.invoke(s, sm)
        if 'error' in str(o):
            return dict(result='unknown', reason=str(o)[:200], time=time.time() - t)
    r = s.checkSat()
    res = 'sat' if r.isSat() else 'unsat' if r.isUnsat() else 'unknown'
    return dict(result=res, time=time.time() - t, model=None)


def main():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    for line in sys.stdin:
        job = json.loads(line)
        try:
            if 'file' in job:
                with open(job['file']) as f:
                    job['smt2'] = f.read()
            out = {'cvc5': solve_cvc5, 'split': solve_split}.get(job.get('solver'), solve_z3)(job)
        except Exception as e:  # inconclusive
            out = dict(result='unknown', reason=f'{type(e).__name__}: {e}'[:500], time=0)
        out['id'] = job['id']
        sys.stdout.write(json.dumps(out) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
