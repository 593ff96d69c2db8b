#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from registry.py"""
import json
import glob
import os
import re
from registry import PROPS
here = os.path.dirname(os.path.abspath(__file__))
with open(here + '/properties.jsonl', 'w') as f:
    for i, p in sorted(PROPS.items()):
        f.write(json.dumps({'id': i, **{k: p[k] for k in ('title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}}) + '\n')
checks, na = [], []
for i, p in sorted(PROPS.items()):
    if p['units']:
        checks.append({'property': i, 'quick_cmd': f'./check.py {i} --tier quick', 'thorough_cmd': f'./check.py {i} --tier thorough',
                       'technique': 'contract-based deductive verification (contracts on the real C++ functions, VCs from clang AST, z3/cvc5)',
                       'level': p['level'],
                       'level_note': p['note'] or 'Every obligation generated from the current source is discharged for all inputs; trusts the clang front end, the VC generator and its contracts on library functions, and the solvers.'})
    else:
        na.append({'property': i, 'reason': p['na'] or 'not claimed: the contracts for these functions are not written yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read /repo as it is', 'source_commits': []}},
          open(here + '/MANIFEST.json', 'w'), indent=1)


# DESIGN.md: everything after the marker is written from here
def harnesses(unit, names):
    t = open(f'{here}/contracts/{unit}.cpp').read()
    for h, o in re.findall(r'VERIF_HARNESS\(\s*(\w+)\s*,\s*"([^"]*)"', t):
        if names is None or h in [n.rstrip('?') for n in names]:
            yield h, o.split(',')


rows, seeds = [], {}
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((m.split('/')[-2], d['what_it_breaks'], d['needs']))
out = []
for i, p in sorted(PROPS.items()):
    out.append(f"### {i} {p['title']}\n")
    if not p['units']:
        out.append(f"Not applicable: {p['na']}\n")
        continue
    hs = [(u, h, o) for u, ns in p['units'].items() for h, o in harnesses(u, ns)]
    ev = f'{here}/evidence/{i}.json'
    cost = ''
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e['coverage']
        cost = f" Last run: {c['discharged']} obligations discharged for all inputs, {c['checked_within_bound']} within a bound, {c['functions_under_contract']} functions of /repo, {round(e['wall_s'])} s."
    full = [h for u, h, o in hs if 'native' not in o and not any(x.startswith('bounded') for x in o)]
    bnd = [(h, next(x for x in o if x.startswith('bounded'))[8:]) for u, h, o in hs if any(x.startswith('bounded') for x in o)]
    nat = [h for u, h, o in hs if 'native' in o]
    real = [h for u, h, o in hs if 'real' in o]
    out.append('* Functions: ' + '; '.join(f"{m['name']} ({m['where']})" for m in p['anchors']['mechanism']))
    out.append('* Contracts in ' + ', '.join(f'`contracts/{u}.cpp`' for u in p['units']) + '.' + cost)
    if full:
        out.append('* For all inputs: ' + ', '.join(full))
    if bnd:
        out.append('* Bounded: ' + ', '.join(f'{h} ({b})' if b else h for h, b in bnd))
    if nat:
        out.append('* Searched on the compiled code only (bounded, never counted as proved): ' + ', '.join(nat))
    if real:
        out.append('* Over exact reals instead of IEEE doubles: ' + ('all' if len(real) == len(hs) else ', '.join(real)))
    if p['assumptions']:
        out.append('* Assumed: ' + '; '.join(p['assumptions']))
    if p['note']:
        out.append('* ' + p['note'])
    out.append('* Beyond the tests: ' + p['why_tests_cant'])
    for n, b, k in seeds.get(i, []):
        out.append(f'* Planted bug `{n}`: {b} (needs {k})')
    out.append('')
mark = '<!-- written by gen.py from registry.py, contracts/, seeded/ and the last evidence -->\n'
t = open(here + '/DESIGN.md').read()
if mark in t:
    open(here + '/DESIGN.md', 'w').write(t.split(mark)[0] + mark + '\n' + '\n'.join(out))
