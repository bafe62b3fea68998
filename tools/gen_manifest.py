#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props/*.py."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in props:
    f = f'{V}/props/{p["id"]}.py'
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'no check built yet (planned; see DESIGN.md)'})
        continue
    d = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
                and node.targets[0].id in ('TECHNIQUE', 'NOTE'):
            d[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        'property': p['id'],
        'quick_cmd': f'./check {p["id"]} --tier quick',
        'thorough_cmd': f'./check {p["id"]} --tier thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': 'property-based testing (Hypothesis): ' + d['TECHNIQUE'],
        'level': 'exploration',
        'level_note': d['NOTE'] + ' Trusts the reference model in props/%s.py and vlib/; CPU build only; sizes bounded '
                      'by the strategies; random search, so absence of a violation is evidence, not proof.' % p['id'],
    })
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -m vlib.build', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks: ./check ID [--seed N] [--replay FILE]. No hooks in /repo. Known findings: known_findings.json.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
