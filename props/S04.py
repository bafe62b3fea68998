"""S04: path sampling and posterior pruning respect the path distribution."""
import math

import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, close

TECHNIQUE = 'random_paths against the exact inverse cumulative distribution over enumerated paths; pruning against exact posteriors'
NOTE = 'Samples sit at (i+0.5)/n of the lexicographic path distribution; boundaries get a rounding allowance.'
RULE = ('Vectors of 0-4 top-sorted acyclic FSAs, 1-200 samples each, or a pruning threshold in (0, 1). Non-trivial: a '
        'member with two or more complete paths.')
NEG = float('-inf')


@st.composite
def case(draw, prune=False):
    fs = draw(gen.fsa_vec(0, 4, max_states=7, max_arcs=10))
    mode = draw(st.sampled_from(['plain', 'plain', 'plain', 'flat', 'sharp']))
    for f in fs:
        for a in f['arcs']:
            if mode == 'flat':
                a[3] = 0
            elif mode == 'sharp':
                a[3] *= 40
    c = {'fs': fs, 'dbl': draw(st.booleans())}
    if prune:
        c['at'] = draw(attrs.spec())
        c['th'] = draw(st.one_of(st.floats(1e-6, 1 - 1e-6), st.sampled_from([0.5, 0.25, 1e-3, 0.999])))
    else:
        c['num'] = draw(st.sampled_from([1, 2, 3, 5, 10, 17, 64, 200]))
    return c


def run_sample(c):
    fs, num, dbl = c['fs'], c['num'], c['dbl']
    vec = F.mk_vec(fs)
    ans = k2.random_paths(vec, use_double_scores=dbl, num_paths=num)
    check_eq(ans.num_axes, 3, 'axes')
    got = ans.tolist()
    check_eq(len(got), len(fs), 'number of FSAs')
    again = k2.random_paths(F.mk_vec(fs), use_double_scores=dbl, num_paths=num).tolist()
    check_eq(again, got, 'not deterministic')
    base, nontriv = 0, False
    for f, g in zip(fs, got):
        nf = F.as_f(f)
        try:
            ps = F.paths(nf, 3000)
        except F.TooBig:
            base += len(nf[1])
            continue
        if not ps:
            check_eq(g, [], 'paths sampled from a machine without any')
            base += len(nf[1])
            continue
        check_eq(len(g), num, 'number of paths')
        nontriv |= len(ps) > 1
        # paths in lexicographic order of the arcs taken
        ps = sorted(ps)
        ws = [sum(nf[1][i][3] for i in p) for p in ps]
        t = F.logsum(ws)
        cum, lo = 0.0, {}
        for p, w in zip(ps, ws):
            lo[p] = (cum, cum + math.exp(w - t))
            cum = lo[p][1]
        eps = 1e-6 if dbl else 2e-4
        last = None
        for i, p in enumerate(g):
            p = tuple(x - base for x in p)
            check(p in lo, 'not a complete path of the machine', p)
            x = (i + 0.5) / num
            check(lo[p][0] - eps <= x <= lo[p][1] + eps, 'sample', i, 'of', num, 'is path', p, lo[p], 'but should cover', x)
            check(last is None or last <= p, 'samples out of order')
            last = p
        base += len(nf[1])
    return nontriv, ['double' if dbl else 'float']


@st.composite
def large(draw):
    return {'fs': draw(gen.big_vec(3, 30, 80)), 'dbl': draw(st.booleans()),
            'num': draw(st.sampled_from([1, 7, 50, 333]))}


def run_large(c):
    """Too many paths to list: arc usage counts against posteriors computed here."""
    fs, num, dbl = c['fs'], c['num'], c['dbl']
    vec = F.mk_vec(fs)
    got = k2.random_paths(vec, use_double_scores=dbl, num_paths=num).tolist()
    base = 0
    for f, g in zip(fs, got):
        nf = F.as_f(f)
        fw, bw = F.forward(nf, True), F.backward(nf, True)
        check_eq(len(g), num, 'number of paths')
        start = [i for i, a in enumerate(nf[1]) if a[0] == 0]
        first = [0] * len(nf[1])
        for p in g:
            s = 0
            for x in p:
                x -= base
                check(0 <= x < len(nf[1]) and nf[1][x][0] == s, 'not contiguous')
                check(bw[nf[1][x][1]] != NEG, 'leads nowhere')
                s = nf[1][x][1]
            check_eq(s, nf[0] - 1, 'does not end in the final state')
            first[p[0] - base] += 1
        for i in start:
            pr = math.exp(nf[1][i][3] + bw[nf[1][i][1]] - bw[0]) if bw[nf[1][i][1]] != NEG else 0.0
            # an interval of length pr holds pr*num sample points, give or take one
            check(abs(first[i] - pr * num) <= 1 + num * (1e-6 if dbl else 2e-4), 'start arc', i, 'sampled', first[i], 'times, expected',
                  pr * num)
        base += len(nf[1])
    return True, []


def run_prune(c):
    fs, dbl, th = c['fs'], c['dbl'], c['th']
    vec = F.mk_vec(fs)
    vals = attrs.attach(vec, c['at'])
    out = k2.prune_on_arc_post(vec, th, dbl)
    outs = F.rd(out)
    check_eq(len(outs), len(fs), 'number of FSAs')
    uid = out.uid.tolist()
    attrs.check_unary(out, vals, c['at'], uid)
    check_eq(sorted(set(uid)), uid, 'arcs repeated or out of order')
    base, k, nontriv, dropped = 0, 0, False, 0
    for f, (n, arcs) in zip(fs, outs):
        nf = F.as_f(f)
        fw, bw = F.forward(nf, True), F.backward(nf, True)
        tot = fw[-1] if nf[0] else NEG
        nontriv |= F.count_paths(nf) > 1
        ids = [x - base for x in uid[k:k + len(arcs)]]
        k += len(arcs)
        check_eq(n, nf[0], 'number of states')
        for a, x in zip(arcs, ids):
            check_eq(a, nf[1][x], 'pruned arc')
        big = max([1.0] + [abs(x) for x in fw + bw if x != NEG])
        eps = 1e-5 if dbl else 1e-4 + 4e-6 * big
        for x, a in enumerate(nf[1]):
            p = NEG if tot == NEG or fw[a[0]] == NEG or bw[a[1]] == NEG else fw[a[0]] + a[3] + bw[a[1]] - tot
            if p > math.log(th) + eps:
                check(x in ids, 'arc', x, 'with log posterior', p, 'dropped at', math.log(th))
            elif p < math.log(th) - eps:
                check(x not in ids, 'arc', x, 'with log posterior', p, 'kept at', math.log(th))
            dropped += x not in ids
        base += len(nf[1])
    return nontriv and dropped > 0, ['dropped' if dropped else 'all kept']


SUBS = [Sub('sample', case, run_sample, 6000), Sub('sample-large', large, run_large, 1200),
        Sub('prune', lambda: case(prune=True), run_prune, 4000)]
