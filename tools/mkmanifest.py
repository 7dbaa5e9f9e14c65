"""Write MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = dict(
    N01='A statement about the limit of a random process over an unbounded number of iterations; a solver query covers a '
        'bounded number of steps. The local conditions it rests on (reversibility, exact conditionals, independence of draws) '
        'are C06-C12.',
    N02='Needs the accumulated float32 rounding error over thousands of steps; the floating-point encoding of even one step (sums, '
        'divisions, square roots over bit-vectors) is out of reach of the solver. The exact-arithmetic identity is C04.',
)
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
PY = '/opt/venv/bin/python'
checks = []
na = []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append(dict(
            property=i,
            quick_cmd=f'{PY} check.py {i} quick',
            thorough_cmd=f'{PY} check.py {i} thorough',
            technique=t.get('technique', 'symbolic execution of the traced jaxpr of the real code, SMT (z3)'),
            level='other',
            level_note=t.get('note', 'holds for all values within the stated bounds (sizes, depth, number of trees and points); '
                             'reals for floats, random draws as free variables; see the evidence file for bounds and assumptions'),
        ))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd=f'{PY} tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
