"""E01: the randomised equivalence test and the random machine generators."""
import math
import random

import k2
import torch
from hypothesis import strategies as st

from vlib import fsa as F, gen
from vlib.core import Sub, check, check_eq

TECHNIQUE = 'is_rand_equivalent on generated pairs (equivalence-preserving rewrites, single edits, unrelated) against the two weighted languages; invariants of random_fsa/random_fsa_vec'
NOTE = 'Top-sorted acyclic machines; the verdict is demanded only where the number of sampled paths makes a wrong one impossible or less likely than 1e-14.'
RULE = ('Two machines or vectors: the second is the first rewritten (states split, arcs doubled, epsilons inserted, weight moved), '
        'the first with one arc or weight changed, or unrelated; both semirings, with and without epsilon treatment, beams. '
        'A share of the machines has labels near the limits of 8, 16 and 31 bits. Non-trivial: both machines have a path and the verdict is decided.')


def connect(nf):
    n, arcs = nf
    if n == 0:
        return 0, []
    fw, bw = {0}, {n - 1}
    for s, d, l, w in sorted(arcs, key=lambda a: a[0]):
        if s in fw:
            fw.add(d)
    for s, d, l, w in sorted(arcs, key=lambda a: -a[0]):
        if d in bw:
            bw.add(s)
    keep = sorted(fw & bw)
    if 0 not in keep or n - 1 not in keep:
        return 0, []
    m = {s: i for i, s in enumerate(keep)}
    return len(keep), [(m[s], m[d], l, w) for s, d, l, w in arcs if s in m and d in m]


def split_state(r, n, arcs):
    """Gives one inner state a copy; each entering arc chooses one of them."""
    if n < 3:
        return n, arcs
    q = r.randint(1, n - 2)
    sh = lambda s: s + (s > q)
    out = []
    for s, d, l, w in arcs:
        if d == q:
            out.append((sh(s), q + r.randint(0, 1), l, w))
        elif s == q:
            out.append((q, sh(d), l, w))
            out.append((q + 1, sh(d), l, w))
        else:
            out.append((sh(s), sh(d), l, w))
    return n + 1, out


def move_weight(r, n, arcs):
    if n < 3:
        return n, arcs
    q, x = r.randint(1, n - 2), r.randint(-8, 8) / 4
    return n, [(s, d, l, w + (x if d == q else 0) - (x if s == q else 0)) for s, d, l, w in arcs]


def insert_eps(r, n, arcs):
    """A new state with an epsilon arc into state q takes over some of the arcs that entered q."""
    if n < 3:
        return n, arcs
    q = r.randint(1, n - 2)
    sh = lambda s: s + (s >= q)
    return n + 1, [(sh(s), q if d == q and r.random() < .5 else sh(d), l, w) for s, d, l, w in arcs] + [(q, q + 1, 0, 0.0)]


def double(r, n, arcs):
    if not arcs:
        return n, arcs
    s, d, l, w = r.choice(arcs)
    return n, arcs + [(s, d, l, w - r.choice([0, .25, 3]))]


def dead(r, n, arcs):
    """A state that does not reach the end."""
    if n < 2:
        return n, arcs
    q = r.randint(1, n - 1)
    sh = lambda s: s + (s >= q)
    return n + 1, [(sh(s), sh(d), l, w) for s, d, l, w in arcs] + [(r.randint(0, q - 1), q, r.randint(1, 5), 1.0)]


def edit(r, n, arcs, lo=0):
    arcs = list(arcs)
    if not arcs:
        return n, arcs
    k = r.randrange(len(arcs))
    s, d, l, w = arcs[k]
    what = r.choice(['w', 'w', 'l', 'del', 'd'])
    if what == 'w':
        arcs[k] = (s, d, l, w + r.choice([.25, .5, -.5, 1, 4]))
    elif what == 'l' and l != -1:
        arcs[k] = (s, d, max(lo, r.randint(0, 3)), w)
    elif what == 'del':
        del arcs[k]
    elif what == 'd' and l != -1 and d + 1 < n - 1:
        arcs[k] = (s, d + 1, l, w)
    return n, arcs


def rand(r, eps):
    f = gen.rand_fsa(r, r.randint(2, 5), r.randint(1, 7), max_label=r.choice([1, 2, 3]), eps=eps, acyclic=True, connected=r.random() < .7)
    f = F.as_f(f) if not isinstance(f, dict) else f
    return f['n'], [(s, d, l, F.f8(w)) for s, d, l, w in f['arcs']]


@st.composite
def case(draw):
    return dict(seed=draw(st.integers(0, 2**31)), how=draw(st.sampled_from(['same', 'same', 'edit', 'edit', 'other'])),
                log=draw(st.booleans()), eps=draw(st.booleans()), special=draw(st.booleans()),
                beam=draw(st.sampled_from([None, None, None, 0.6, 2.1, 5.1])), m=draw(st.sampled_from([0, 0, 1, 2, 3])),
                delta=draw(st.sampled_from([1e-6, 1e-6, 0.3])), np=draw(st.sampled_from([400, 400, 100, 1])),
                wide=draw(st.sampled_from([None] * 6 + sorted(gen.WIDE))))


def pair(c, r):
    eps = c['eps'] and not (c['log'] and c['special'])
    a = rand(r, eps)
    if c['how'] == 'other':
        return a, rand(r, eps)
    ops = [split_state, move_weight, dead]
    if not c['log']:
        ops.append(double)
    if c['special'] and not c['log']:
        ops.append(insert_eps)
    b = a
    for _ in range(r.randint(0, 3)):
        b = r.choice(ops)(r, *b)
    if c['how'] == 'edit':
        b = edit(r, *b, lo=1 if c['log'] and c['special'] else 0)
    if r.random() < .5:
        a, b = b, a
    return a, b


def finish(nf, wide=lambda l: l):
    nf = nf[0], [(s, d, wide(l) if l > 0 else l, w) for s, d, l, w in nf[1]]
    return {'n': nf[0], 'arcs': [[s, d, l, 8 * w] for s, d, l, w in sorted(nf[1], key=lambda a: a[0])]}


def lang(nf, c):
    """{string: weight}, total, [(string, probability of being drawn)]"""
    n, arcs = connect(nf)
    out = {}
    for k, (s, d, l, w) in enumerate(arcs):
        out.setdefault(s, []).append((d, l, w))
    L, draws, tot = {}, [], []
    todo = [(0, (), 0.0, 1.0)] if n else []
    while todo:
        s, str_, w, p = todo.pop()
        if s == n - 1:
            key = tuple(x for x in str_ if x != 0) if c['special'] else str_
            L.setdefault(key, []).append(w)
            draws.append((key, p))
            continue
        for d, l, v in out[s]:
            todo.append((d, str_ + (l,), w + v, p / len(out[s])))
        if len(todo) > 3000 or len(draws) > 600:
            return None
    red = (lambda x: max(x) + math.log(sum(math.exp(y - max(x)) for y in x))) if c['log'] else max
    L = {k: red(v) for k, v in L.items()}
    return L, red(list(L.values())) if L else -math.inf, draws


def verdict(a, b, c):
    """True/False/None (not decided)."""
    x, y = lang(a, c), lang(b, c)
    if x is None or y is None:
        return None
    (la, ta, da), (lb, tb, db) = x, y
    if not la and not lb:
        return True
    if not la or not lb:
        return False
    if set(s for k in la for s in k) != set(s for k in lb for s in k):
        return False
    d, beam = c['delta'], c['beam'] or math.inf

    def bad(k):
        u, v = la.get(k, -math.inf), lb.get(k, -math.inf)
        if min(abs(u - (ta - beam)), abs(v - (tb - beam))) < 1e-6:
            return None
        if u < ta - beam and v < tb - beam:
            return False
        diff = abs(u - v)
        return None if abs(diff - d) < 1e-6 else diff > d
    q = 0.0
    for ds in (da, db):
        for k, p in ds:
            z = bad(k)
            if z is None:
                return None
            q += p / 2 if z else 0
    if q == 0:
        return True if abs(ta - tb) < d - 1e-7 else None
    return False if c['np'] * q > 33 or q > 1 - 1e-9 else None


def run(c):
    r = random.Random(c['seed'])
    ps = [pair(c, r) for _ in range(max(1, c['m']))]
    vs = [verdict(a, b, c) for a, b in ps]
    want = False if False in vs else None if None in vs else True
    mk = (lambda fs: F.mk_vec(fs)) if c['m'] else (lambda fs: F.mk(fs[0]))
    wide = gen.WIDE.get(c.get('wide'), lambda l: l)
    A, B = mk([finish(a, wide) for a, _ in ps]), mk([finish(b, wide) for _, b in ps])
    before = str(A.arcs) + str(B.arcs)
    kw = dict(beam=c['beam']) if c['beam'] else {}
    got = k2.is_rand_equivalent(A, B, c['log'], treat_epsilons_specially=c['special'], delta=c['delta'], npath=c['np'], **kw)
    check(isinstance(got, bool), 'type', type(got))
    check_eq(str(A.arcs) + str(B.arcs), before, 'an input changed')
    if want is not None:
        check_eq(got, want, 'equivalence of', ps, 'members', vs, {k: c[k] for k in ('log', 'special', 'delta', 'beam', 'np')})
    both = all(connect(a)[0] and connect(b)[0] for a, b in ps)
    return want is not None and both, [c['how'], f'{want}', 'log' if c['log'] else 'trop', 'vec' if c['m'] else 'one', 'beam' if c['beam'] else 'nobeam']


@st.composite
def rand_case(draw):
    lo = draw(st.integers(0, 12))
    return dict(vec=draw(st.booleans()), acyclic=draw(st.booleans()), ms=draw(st.integers(0, 6)), lo=lo, hi=lo + draw(st.sampled_from([0, 1, 5, 30])),
                flo=draw(st.integers(1, 4)), fx=draw(st.integers(0, 3)))


def run_rand(c):
    if c['vec']:
        f = k2.random_fsa_vec(c['flo'], c['flo'] + c['fx'], c['acyclic'], c['ms'], c['lo'], c['hi'])
        check(c['flo'] <= f.shape[0] <= c['flo'] + c['fx'], 'number of machines', f.shape)
        check_eq(len(f.shape), 3)
    else:
        f = k2.random_fsa(c['acyclic'], c['ms'], c['lo'], c['hi'])
        check_eq(len(f.shape), 2)
    total = 0
    for nf in F.rd(f):
        n, arcs = nf
        check(c['lo'] <= len(arcs) <= c['hi'], 'number of arcs', len(arcs), c)
        bad = F.well_formed(nf)
        check(bad is None, 'malformed', bad, nf)
        for s, d, l, w in arcs:
            check((l == -1) == (d == n - 1) and -1 <= l <= c['ms'], 'label', (s, d, l), n, c)
            check(not c['acyclic'] or d > s, 'not top-sorted', (s, d), c)
            check(w == w and abs(w) < 1e6, 'score', w)
        total += len(arcs)
    check_eq(f.num_arcs, total)
    check(f.properties & 1, 'not valid')
    return total > 0, ['vec' if c['vec'] else 'one', 'acyclic' if c['acyclic'] else 'any']


SUBS = [Sub('equivalent', case, run, 20000), Sub('random', rand_case, run_rand, 6000)]
