"""new_seed.py SPEC.py ...: writes seeded/<id>/ from a spec (ID PROPERTY EDITS DEMO NEEDS BREAKS).

EDITS is a list of (file, old text, new text); DEMO is a Python program (exit 0 on the unchanged tree)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    wt = tempfile.mkdtemp(prefix='k2-seed-')
    try:
        subprocess.run(f'git -C /repo archive HEAD k2 | tar -x -C {wt}', shell=True, check=True)
        diff = ''
        files = []
        for e in s['EDITS']:  # (file, old, new[, which occurrence])
            f, old, new = e[:3]
            p = os.path.join(wt, f)
            t = open(p).read()
            if len(e) == 4:
                parts = t.split(old)
                assert len(parts) > e[3] + 1, (s['ID'], f, len(parts), old)
                t = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
            else:
                assert t.count(old) == 1, (s['ID'], f, t.count(old), old)
                t = t.replace(old, new)
            open(p, 'w').write(t)
            if f not in files:
                files.append(f)
        for f in files:
            r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/repo/' + f,
                                os.path.join(wt, f)], capture_output=True, text=True)
            diff += r.stdout
    finally:
        shutil.rmtree(wt)
    # only lines of the original repository may be changed
    base = subprocess.run('git -C /repo rev-list --max-parents=0 HEAD', shell=True, capture_output=True,
                          text=True).stdout.strip()
    orig = {f: set(subprocess.run(['git', '-C', '/repo', 'show', f'{base}:{f}'], capture_output=True,
                                  text=True).stdout.split('\n')) for f in files}
    cur = None
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            cur = line[6:]
        elif line.startswith('-') and line[1:].strip() and line[1:] not in orig[cur]:
            print('NOT ORIGINAL:', s['ID'], line)
    d = os.path.join(os.environ.get('SEED_OUT', os.path.join(HERE, 'seeded')), s['ID'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/k2/python:/opt/k2-build/lib\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', d)
