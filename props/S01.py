"""S01: forward, backward, total scores and arc posteriors are sums over paths."""
import math

import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen
from vlib.core import Sub, check, check_eq, check_all_close, close

TECHNIQUE = 'k2 state/total/posterior scores against a dynamic program and explicit path enumeration in Python'
NOTE = 'Random top-sorted machines (empty, dead, disconnected, -inf and huge scores included).'
RULE = ('Vectors of 0-4 top-sorted acyclic FSAs (small: drawn arc by arc, 2-7 states, empty members, dead states, '
        'parallel arcs, epsilon, -inf and huge scores; large: up to 30 states and 120 arcs; huge: chains, fans, bushes and dead wood of up to 70000 states or arcs). Non-trivial: at least '
        'one member has two or more complete paths.')

NEG = float('-inf')


@st.composite
def small(draw):
    fs = draw(gen.fsa_vec(0, 4, max_states=7, max_arcs=9))
    mode = draw(st.sampled_from(['plain', 'plain', 'plain', 'ninf', 'huge', 'tiny']))
    for f in fs:
        for a in f['arcs']:
            if mode == 'ninf' and draw(st.integers(0, 4)) == 0:
                a[3] = None
            elif mode == 'huge':
                a[3] *= 4096
            elif mode == 'tiny':
                a[3] = -abs(a[3]) * 64
    return fs


def arc_post_oracle(nf, log):
    fw, bw = F.forward(nf, log), F.backward(nf, log)
    n, arcs = nf
    tot = fw[n - 1] if n else NEG
    if tot == NEG:
        return [NEG] * len(arcs)
    return [fw[a[0]] + a[3] + bw[a[1]] - tot for a in arcs]


def run_scores(fs, deep=0):
    # deep: number of additions in a row that may each round (machines with very many states)
    vec = F.mk_vec(fs)
    nfs = [F.as_f(f) for f in fs]
    labels = []
    nontriv = False
    for nf in nfs:
        c = F.count_paths(nf)
        nontriv |= c >= 2
        labels.append('empty' if nf[0] == 0 else 'dead' if c == 0 else 'one path' if c == 1 else 'many')
    for log in (False, True):
        fw = [x for nf in nfs for x in F.forward(nf, log)]
        bw = [x for nf in nfs for x in F.backward(nf, log)]
        tot = []
        for nf in nfs:
            t = F.forward(nf, log)[-1] if nf[0] else NEG
            if nf[0] and not log:
                assert t == F.backward(nf, log)[0]
            if 0 < nf[0] <= 200 and F.count_paths(nf) < 300:
                ws = [sum(nf[1][i][3] for i in p) for p in F.paths(nf)]
                e = (F.logsum(ws) if log else max(ws)) if ws else NEG
                assert close(e, t, 1e-9, 1e-6), 'oracle disagrees with itself'
            tot.append(t)
        post = [x for nf in nfs for x in arc_post_oracle(nf, log)]
        big = max([1.0] + [abs(x) for x in fw + bw if x != NEG])
        for dbl in (True, False):
            tag = (f'log={log} double={dbl}',)
            tol = dict(rtol=1e-8, atol=1e-6) if dbl else dict(rtol=2e-6, atol=1e-4 + 1e-6 * big)
            if deep:
                tol['atol'] += (1e-16 if dbl else 1e-7) * big * deep ** 0.5 * 4
                tol['atol'] += (1e-13 if dbl else 4e-7) * deep    # each logarithm has an error of its own
            if not log and big < 1e5:
                tol = dict(rtol=0, atol=0)
            ptol = dict(rtol=1e-4, atol=1e-6 + (1e-9 if dbl else 2e-6) * big * 8 + (0 if dbl else 2e-4) + 3 * (tol['atol'] if deep else 0))
            got = vec.get_forward_scores(dbl, log)
            check_eq(got.dtype, torch.float64 if dbl else torch.float32, 'dtype', *tag)
            check_all_close(got.tolist(), fw, 'forward', *tag, **tol)
            check_all_close(vec.get_backward_scores(dbl, log).tolist(), bw, 'backward', *tag, **tol)
            check_all_close(vec.get_tot_scores(dbl, log).tolist(), tot, 'total', *tag, **tol)
            gp = vec.get_arc_post(dbl, log).tolist()
            check_all_close(gp, post, 'arc_post', *tag, **ptol)
            if log and dbl:
                # posteriors of arcs leaving the start / entering the end sum to one
                k = 0
                for nf, t in zip(nfs, tot):
                    m = len(nf[1])
                    p = gp[k:k + m]
                    k += m
                    if t != NEG:
                        for side, st_ in ((0, 0), (1, nf[0] - 1)):
                            z = math.fsum(math.exp(x) for x, a in zip(p, nf[1]) if a[side] == st_)
                            check(close(z, 1.0, 1e-5, 1e-5 + 1e-9 * big + 1e-12 * deep), 'posterior mass', z, tag)
    return nontriv, sorted(set(labels))


# ------------------------------------------------------------------ scaling laws on bigger machines
@st.composite
def laws(draw):
    fs = draw(gen.big_vec(3, 20, 40))
    return {'fs': fs, 'c': draw(st.integers(-40, 40)), 'which': draw(st.integers(0, 10**6))}


def run_laws(case):
    """Adding a potential to a state's arcs shifts scores as it must."""
    fs, c = case['fs'], case['c'] / 8.0
    vec = F.mk_vec(fs)
    f = case['which'] % len(fs)
    n = fs[f]['n']
    s = (case['which'] // 7) % n
    # reweight by a potential at state s of machine f: entering +c, leaving -c
    import copy
    g = copy.deepcopy(fs)
    for a in g[f]['arcs']:
        if a[1] == s:
            a[3] += case['c']
        if a[0] == s:
            a[3] -= case['c']
    vec2 = F.mk_vec(g)
    base = sum(x['n'] for x in fs[:f])
    for log in (False, True):
        t1, t2 = vec.get_tot_scores(True, log).tolist(), vec2.get_tot_scores(True, log).tolist()
        for i, (x, y) in enumerate(zip(t1, t2)):
            d = 0.0
            if i == f:
                d = (c if s == n - 1 else 0) - (c if s == 0 else 0)
            check(close(x + d, y, 1e-7, 1e-5), 'total after reweighting', i, x, y, d)
        p1, p2 = vec.get_arc_post(True, log).tolist(), vec2.get_arc_post(True, log).tolist()
        check_all_close(p2, p1, 'posteriors after reweighting', log, rtol=1e-6, atol=1e-4)
        f1, f2 = vec.get_forward_scores(True, log).tolist(), vec2.get_forward_scores(True, log).tolist()
        for i, (x, y) in enumerate(zip(f1, f2)):
            if not (base <= i < base + n):
                check(close(x, y, 1e-9, 1e-9), 'forward of another member changed', i)
    return True, []


# ------------------------------------------------------------------ machines with tens of thousands of states or arcs
@st.composite
def huge(draw):
    return {'h': draw(gen.huge()), 'rest': draw(gen.fsa_vec(0, 2, max_states=4, max_arcs=4)), 'at': draw(st.integers(0, 2))}


def run_huge(c):
    fs = list(c['rest'])
    fs.insert(min(c['at'], len(fs)), gen.build_huge(c['h']))
    nontriv, labels = run_scores(fs, max(max(f['n'], len(f['arcs'])) for f in fs))
    return nontriv, [c['h']['kind']]


SUBS = [
    Sub('scores-huge', huge, run_huge, 80),
    Sub('scores', small, run_scores, 7000),
    Sub('scores-large', lambda: gen.big_vec(4, 30, 120), run_scores, 3000),
    Sub('reweight', laws, run_laws, 1500),
]
