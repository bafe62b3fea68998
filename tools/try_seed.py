"""try_seed.py [--only-check] [--no-test] ID ...: applies each seeded patch to /repo, builds, runs the stable tests, the demo
and the property's check, undoes it; at the end rebuilds and runs all the demos on the unchanged tree.
Appends one line per run to /tmp/seed_results.txt."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
only = '--only-check' in args
notest = only or '--no-test' in args
also = [a[7:] for a in args if a.startswith('--also=')]
ids = [a for a in args if not a.startswith('--')]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **kw)


assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
log = open('/tmp/seed_results.txt', 'a')
try:
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        r = sh(f'git -C /repo apply {d}/patch.diff')
        res = [i]
        try:
            if r.returncode:
                res.append('PATCH-FAILS ' + r.stderr[:200])
                continue
            t = time.time()
            if notest:
                b = sh('/opt/venv/bin/python -B -m vlib.build', cwd=HERE)
            else:
                b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                res.append('BUILD-FAILS ' + b.stdout[-1500:])
                continue
            if not notest:
                sh('bash /opt/vp/test.sh /tmp/seed_o.json')
                miss = stable - set(json.load(open('/tmp/seed_o.json'))['passed'])
                res.append('tests ok' if not miss else f'TESTS-FAIL {sorted(miss)[:4]}')
            if not only:
                try:
                    dm = sh(f'{d}/demo.sh', cwd='/repo', timeout=300)
                    res.append(f'demo={dm.returncode}' + ('' if dm.returncode else ' DEMO-BLIND'))
                except subprocess.TimeoutExpired:
                    res.append('demo=timeout')
            for p in [meta['property']] + also:
                c = sh(f'VERIF_SEED=1 VERIF_TIER=quick ./check {p}', cwd=HERE)
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION property=' + p)]
                res.append(f'{p}: ' + ('CAUGHT ' + v[0][-60:] if c.returncode == 1 and v else f'MISSED rc={c.returncode}'))
            res.append('%.0fs' % (time.time() - t))
        finally:
            sh('git -C /repo checkout -- .')
            print(' | '.join(res), flush=True)
            log.write(' | '.join(res) + '\n')
            log.flush()
finally:
    sh('git -C /repo checkout -- .')
    sh('/opt/venv/bin/python -B -m vlib.build', cwd=HERE)
    if not only:
        for i in ids:
            d = os.path.join(HERE, 'seeded', i)
            dm = sh(f'{d}/demo.sh', cwd='/repo', timeout=300)
            if dm.returncode:
                print(i, 'DEMO FAILS ON CLEAN TREE', dm.stdout[-500:], dm.stderr[-800:])
    print('done; tree', sh('git -C /repo status --porcelain').stdout or 'clean')
