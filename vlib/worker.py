"""Runs the generated checks of one property in one process.

python -m vlib.worker PROP --worker I --n N --tier T --seed S --dir D [--only SUB] [--fork]
python -m vlib.worker PROP --replay FILE --dir D
"""
import argparse, hashlib, importlib, json, os, resource, signal, sys, time, traceback

CASE_LIMIT_S = 150     # one case takes milliseconds; this is a hang


def canon(case):
    return json.loads(json.dumps(case))


class Runner:
    def __init__(self, a, mod):
        self.a, self.mod = a, mod
        self.curfd = os.open(os.path.join(a.dir, f'cur-{a.worker}.json'),
                             os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o644)
        self.stats = {}
        self.hashes = set()
        self.fails = []
        self.t0 = time.time()

    def note(self, sub, case):
        b = json.dumps({'property': self.a.prop, 'sub': sub.name, 'case': case}).encode()
        os.ftruncate(self.curfd, 0)
        os.pwrite(self.curfd, b, 0)

    def run_plain(self, sub, case):
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
        try:
            return sub.run(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def run_forked(self, sub, case):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = {}
            try:
                ret = self.run_plain(sub, case)
                out = {'ret': ret}
            except BaseException as e:
                out = {'exc': f'{type(e).__name__}: {e}'[:4000]}
            try:
                os.write(w, json.dumps(out).encode()[:60000])
            finally:
                os._exit(0)
        os.close(w)
        buf = b''
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            buf += x
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if st != 0 or not buf:
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
            what = 'hung' if sig == signal.SIGALRM else f'died (wait status {st}, signal {sig})'
            raise RuntimeError(f'the process {what} on this case')
        out = json.loads(buf)
        if 'exc' in out:
            raise AssertionError(out['exc'])
        return out['ret']

    def run_sub(self, sub, count):
        import hypothesis
        from hypothesis import given, settings, seed, HealthCheck, Phase
        try:
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 25
        except Exception:
            pass
        a = self.a
        st = self.stats.setdefault(sub.name, dict(evaluations=0, nontrivial=0, skipped=0,
                                                  labels={}, samples=[], wall_s=0.0))
        state = {'last': None}
        fork = a.fork or sub.fork
        seen_nt = 0

        def body(case):
            case = canon(case)
            if time.time() - self.t0 > a.budget:
                st['skipped'] += 1
                return
            self.note(sub, case)
            try:
                ret = (self.run_forked if fork else self.run_plain)(sub, case)
            except hypothesis.errors.HypothesisException:
                raise
            except BaseException as e:
                state['last'] = (case, f'{type(e).__name__}: {e}'[:4000],
                                 traceback.format_exc()[-6000:])
                raise
            st['evaluations'] += 1
            nt, labels = ret if ret is not None else (False, [])
            for l in labels:
                st['labels'][l] = st['labels'].get(l, 0) + 1
            if nt:
                h = hashlib.blake2b((sub.name + json.dumps(case)).encode(), digest_size=8).hexdigest()
                if h not in self.hashes:
                    self.hashes.add(h)
                    st['nontrivial'] += 1
                    n = st['nontrivial']
                    if n in (3, 40) and len(json.dumps(case)) < 1500:
                        st['samples'].append({'sub': sub.name, 'case': case})

        tstart = time.time()
        name_seed = int(hashlib.sha256(
            f'{a.seed}/{a.prop}/{sub.name}/{a.worker}'.encode()).hexdigest()[:12], 16)
        test = seed(name_seed)(settings(
            max_examples=max(1, count), database=None, deadline=None, print_blob=False,
            report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                   HealthCheck.large_base_example],
        )(given(sub.strategy())(body)))
        try:
            test()
        except BaseException as e:
            if state['last'] is None:
                raise          # generator or harness trouble: an error exit
            case, msg, tb = state['last']
            self.fails.append({'property': a.prop, 'sub': sub.name, 'case': case,
                               'message': msg, 'traceback': tb,
                               'seed': a.seed, 'worker': a.worker})
        st['wall_s'] = round(time.time() - tstart, 2)

    def dump(self, done):
        tmp = os.path.join(self.a.dir, f'res-{self.a.worker}.json.tmp')
        with open(tmp, 'w') as f:
            json.dump({'stats': self.stats, 'hashes': sorted(self.hashes),
                       'fails': self.fails, 'done': done}, f)
        os.rename(tmp, tmp[:-4])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--worker', type=int, default=0)
    ap.add_argument('--n', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--dir', required=True)
    ap.add_argument('--only')
    ap.add_argument('--fork', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float, default=600)
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_DATA, (lim, lim))
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import torch
    torch.set_num_threads(1)
    mod = importlib.import_module(f'props.{a.prop}')
    subs = mod.SUBS

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        sub = [s for s in subs if s.name == rep['sub']][0]
        r = Runner(a, mod)
        try:
            r.run_forked(sub, rep['case'])
            out = {'ok': True}
        except BaseException as e:
            out = {'ok': False, 'message': f'{type(e).__name__}: {e}'[:6000]}
        with open(os.path.join(a.dir, 'replay.json'), 'w') as f:
            json.dump(out, f)
        return 0

    r = Runner(a, mod)
    for i, sub in enumerate(subs):
        if a.only and sub.name != a.only:
            continue
        total = sub.quick if a.tier == 'quick' else sub.thorough
        total = max(1, int(total * a.scale))
        n = total // a.n + (1 if (a.worker + i) % a.n < total % a.n else 0)
        if n == 0:
            continue
        r.run_sub(sub, n)
        if r.fails:
            break
        r.dump(False)
    r.dump(True)
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
