"""./check PROP: build, run the workers, write the evidence, give the verdict."""
import argparse, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def worker_env(i):
    env = dict(os.environ)
    env.update(PYTHONPATH=f'{VERIF}:/repo/k2/python:/opt/k2-build/lib', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', LC_ALL='C.UTF-8',
               HYPOTHESIS_STORAGE_DIRECTORY='/nonexistent', TZ='UTC')
    # Uninitialised heap memory reads as garbage, different in each worker.
    if i % 4:
        env['MALLOC_PERTURB_'] = str([0, 85, 165, 255][i % 4])
    for k in ('K2_SYNC_KERNELS', 'K2_DISABLE_CHECKS', 'MALLOC_CHECK_'):
        env.pop(k, None)
    return env


def spawn(prop, i, n, tier, seed, d, extra=()):
    log = open(os.path.join(d, f'log-{i}.txt'), 'wb')
    # backtraces of refused inputs go to stderr: keep only the tail, through a pipe-less file limit
    return subprocess.Popen(
        [PY, '-B', '-m', 'vlib.worker', prop, '--worker', str(i), '--n', str(n), '--tier', tier,
         '--seed', str(seed), '--dir', d, *extra],
        stdin=subprocess.DEVNULL, stdout=log, stderr=log,
        env=worker_env(i), cwd=d, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def replay_ok(prop, path, d):
    """True: the case passes. False: it fails. None: could not tell."""
    out = os.path.join(d, 'replay.json')
    if os.path.exists(out):
        os.unlink(out)
    p = spawn(prop, 0, 1, 'quick', 1, d, ['--replay', path])
    try:
        p.wait(timeout=400)
    except subprocess.TimeoutExpired:
        kill(p)
    r = load(out)
    return (None, 'no answer') if r is None else (r['ok'], r.get('message', ''))


def known_findings(prop):
    k = load(os.path.join(VERIF, 'known_findings.json')) or {}
    return [f for f in k.get('findings', []) if f['property'] == prop and f.get('status') == 'open']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--nobuild', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    os.chdir(VERIF)
    if not a.nobuild:
        from vlib.build import build
        ok, out = build()
        if not ok:
            sys.stdout.write(out.decode(errors='replace')[-4000:])
            print(f'ERROR property={a.prop}: /repo does not build')
            return 2
        with open(f'props/{a.prop}.py') as f:
            ext = 'NEEDS_EXT = True' in f.read()
        if ext:
            from vlib import ext
            ok, out, _ = ext.build()
            if not ok:
                sys.stdout.write(out.decode(errors='replace')[-4000:])
                print(f'ERROR property={a.prop}: cpp/ does not build against /repo')
                return 2
    tbuild = time.time() - t0
    d = tempfile.mkdtemp(prefix=f'k2v-{a.prop}-')
    try:
        return run(a, d, t0, tbuild)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(a, d, t0, tbuild):
    prop, tier, seed = a.prop, a.tier, a.seed
    if a.replay:
        ok, msg = replay_ok(prop, os.path.abspath(a.replay), d)
        if ok:
            print('replay passes')
            return 0
        if ok is None:
            print('replay: no answer')
            return 2
        print(msg)
        print(f'VIOLATION property={prop} replay={a.replay}')
        return 1

    n = a.workers
    budget = 420 if tier == 'quick' else 3000
    extra = ['--budget', str(budget), '--scale', str(a.scale)]
    if a.only:
        extra += ['--only', a.only]
    procs = {i: spawn(prop, i, n, tier, seed, d, extra) for i in range(n)}
    hard = time.time() + budget + 240
    failed = None
    rcs = {}
    while procs:
        time.sleep(0.05)
        for i, p in list(procs.items()):
            rc = p.poll()
            if rc is None:
                continue
            rcs[i] = rc
            del procs[i]
            if failed is None:
                r = load(os.path.join(d, f'res-{i}.json'))
                if r and r['fails']:
                    failed = i
                elif rc < 0:
                    failed = i
        if failed is not None or time.time() > hard:
            for p in procs.values():
                kill(p)
            if failed is None:
                print('time budget hit: inconclusive')
            for i in list(procs):
                rcs[i] = None
            procs = {}

    results = [load(os.path.join(d, f'res-{i}.json')) for i in range(n)]
    fail = None
    if failed is not None:
        r = results[failed]
        if r and r['fails']:
            fail = r['fails'][0]
        else:   # killed by a signal: the case it was on
            cur = load(os.path.join(d, f'cur-{failed}.json'))
            rc = rcs[failed]
            if cur is None or rc == -signal.SIGKILL:
                tail = open(os.path.join(d, f'log-{failed}.txt'), 'rb').read()[-3000:].decode(errors='replace')
                print(tail)
                print(f'ERROR property={prop}: worker {failed} ended with {rc}')
                return 2
            fail = dict(cur, seed=seed, worker=failed,
                        message=f'the process ended with signal {-rc}'
                                + (' (hang)' if rc == -signal.SIGALRM else ''))
            # look for a smaller case with the same effect
            if rc != -signal.SIGALRM:
                p = spawn(prop, failed, n, tier, seed, d,
                          extra + ['--fork', '--only', cur['sub'], '--budget', '200'])
                try:
                    p.wait(timeout=300)
                    r2 = load(os.path.join(d, f'res-{failed}.json'))
                    if r2 and r2['fails']:
                        fail = r2['fails'][0]
                except subprocess.TimeoutExpired:
                    kill(p)
    if fail is None and any(rc != 0 for rc in rcs.values() if rc is not None):
        for i, rc in rcs.items():
            if rc != 0:
                tail = open(os.path.join(d, f'log-{i}.txt'), 'rb').read()[-6000:].decode(errors='replace')
                print(tail)
                print(f'ERROR property={prop}: worker {i} ended with {rc}')
                break
        return 2

    # known findings: each is replayed; it must still be there or be silent
    for f in known_findings(prop):
        ok, msg = replay_ok(prop, os.path.join(VERIF, f['replay']), d)
        if ok is False:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")

    merge = {}
    hashes = set()
    samples = []
    for r in results:
        if not r:
            continue
        hashes.update(r['hashes'])
        for name, s in r['stats'].items():
            m = merge.setdefault(name, dict(evaluations=0, nontrivial=0, skipped=0, labels={}, wall_s=0))
            for k in ('evaluations', 'nontrivial', 'skipped'):
                m[k] += s[k]
            m['wall_s'] = max(m['wall_s'], s['wall_s'])
            for l, c in s['labels'].items():
                m['labels'][l] = m['labels'].get(l, 0) + c
            if sum(x['sub'] == name for x in samples) < 2:
                samples += s['samples'][:1]
    if not samples and fail:
        samples = [{'sub': fail['sub'], 'case': fail['case']}]
    rule = ''
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    try:
        src = open(os.path.join(VERIF, 'props', prop + '.py')).read()
        import ast
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'RULE':
                rule = ast.literal_eval(node.value)
    except Exception:
        pass
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(m['evaluations'] for m in merge.values()),
            'distinct_nontrivial': len(hashes),
            'rule': rule,
            'samples': samples[:12],
            'subchecks': merge,
            'workers': n,
            'skipped_on_time_budget': sum(m['skipped'] for m in merge.values()),
        },
        'assumptions': ['CPU build (Release, no CUDA)', 'reference models in /verif/vlib and the oracle in '
                        f'/verif/props/{prop}.py are right', 'sizes bounded as in the strategies'],
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if fail else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', f'{prop}.json'))

    if fail:
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        path = os.path.join(VERIF, 'out', f"{prop}-{fail['sub']}.json")
        with open(path, 'w') as f:
            json.dump(fail, f, indent=1)
        print(f"case ({fail['sub']}): {json.dumps(fail['case'])[:3000]}")
        print(f"message: {fail['message']}")
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f"{prop}: held on {ev['coverage']['evaluations']} cases, {len(hashes)} distinct non-trivial "
          f"({', '.join(f'{k} {m['evaluations']}/{m['nontrivial']} {m['wall_s']}s' for k, m in merge.items())}); "
          f"build {tbuild:.1f}s, total {time.time() - t0:.1f}s")
    return 0


if __name__ == '__main__':
    sys.exit(main())
