#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from props import PROPS, NA
with open(here + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['all']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['obs'], 'hook_needed': None}}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if not os.path.isdir(here + '/harness/' + p['id'].lower()):
        print('no harness', p['id']); continue
    checks.append({'property': p['id'], 'quick_cmd': f'./check.sh {p["id"]} quick', 'thorough_cmd': f'./check.sh {p["id"]} thorough',
                   'technique': 'bounded symbolic execution of the Go SSA with SMT (z3, cvc5), counterexamples replayed natively',
                   'level': 'model_checking', 'level_note': p['note'] + ' Real arithmetic (no rounding), bounds and assumptions in DESIGN.md; a violation is reported only after the solver model fails on the compiled code.'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
# DESIGN.md
import glob
out = []
for p in PROPS:
    out.append(f"### {p['id']} — {p['title']}\n{p['statement']}\n\n*Decided by* `harness/{p['id'].lower()}`: {p.get('how', p['note'])} *Oracle:* {p.get('oracle', 'the definition restated in the harness, over the same symbols')}. *Bounds:* {p['note']} *Why tests cannot:* {p['why']}\n")
for p in NA:
    out.append(f"### {p['id']} — {p['title']} (not applicable)\n{p['statement']}\n\n{p['reason']}\n")
fx = ['- ' + json.loads(l)['what'] for l in open(here + '/known_findings.jsonl') if l.strip()]
sd = []
try: res = json.load(open(here + '/tools/seed_results.json'))
except Exception: res = {}
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m)); n = m.split('/')[-2]
    sd.append(f"| {n} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {res.get(n, '')} |")
t = open(here + '/tools/design.tmpl.md').read()
t = t.replace('@PROPS@', '\n'.join(out)).replace('@FIXES@', '\n'.join(fx)).replace('@SEEDS@', '| bug | property | breaks | needs | check |\n|---|---|---|---|---|\n' + '\n'.join(sd))
open(here + '/DESIGN.md', 'w').write(t)
