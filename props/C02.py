"""C02: Levenshtein graphs and alignments."""
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F
from vlib.core import Sub, check, check_eq, check_close
from props.C01 import ragged

TECHNIQUE = 'generated pairs of sequences, maps and penalties against edit-distance dynamic programming'
NOTE = ('Symbols are positive. With the default penalty the alignment is a minimal one and its score is minus the Levenshtein distance (sequences shorter than '
        '500 symbols); with another penalty it is the best under these weights and its score is minus the number of its edits.')
RULE = ('graph: all paths for inputs of up to 3 labels, with outputs, scores and offsets. align: sequences with empty members and repeats, maps of hypotheses to '
        'references, both matching modes, penalties per side, the same graphs used again. big: sequences of up to 260 symbols, up to 1300 pairs, symbols up to 2^31 - 1. Non-trivial: a distance of at least 2 or a non-trivial graph.')


def readings(y, x, ins):
    """All ways to read the labels x (with 0 = blank) in the graph of y: sorted [(score, offset)]; every way outputs y."""
    def f(i, j):
        if i == len(x):
            return [(0.0, 0.0)] if j == len(y) else []
        out = []
        if x[i] == 0:
            out += [(a + ins, b + ins + 0.5) for a, b in f(i + 1, j)]
            if j < len(y):
                out += [(a - 0.5, b) for a, b in f(i + 1, j + 1)]
        elif j < len(y) and x[i] == y[j]:
            out += f(i + 1, j + 1)
        return out
    return sorted(f(0, 0))


def paths(n, arcs, aux, off, x):
    cur = [(0, (), 0.0, 0.0)]
    for l in list(x) + [-1]:
        cur = [(d, y + ((o,) if o else ()), s + w, q + e) for (st_, y, s, q) in cur for (a, d, lab, w), o, e in zip(arcs, aux, off) if a == st_ and lab == l]
    return [(y, s, q) for st_, y, s, q in cur if st_ == n - 1]


@st.composite
def graph_case(draw):
    V = draw(st.integers(1, 4))
    return dict(ys=draw(st.lists(st.lists(st.integers(1, V), max_size=4), max_size=4)), form=draw(st.sampled_from(['list', 'ragged'])), seed=draw(st.integers(0, 10**6)),
                ins=draw(st.sampled_from([None, -0.501, -0.25, -0.5, -1.0, 0.0])))


def close_lists(a, b):
    return len(a) == len(b) and all(abs(p - q) < 1e-4 for x, y in zip(a, b) for p, q in zip(x, y))


def run_graph(c):
    import itertools
    ys = c['ys']
    kw = {} if c['ins'] is None else dict(ins_del_score=c['ins'])
    ins = -0.501 if c['ins'] is None else c['ins']
    g = k2.levenshtein_graph(ys if c['form'] == 'list' and any(ys) else ragged(ys), **kw)
    check_eq(g.shape[0], len(ys), 'graphs', c)
    aux, off, o = g.aux_labels.tolist(), getattr(g, '__ins_del_score_offset_internal_attr_').tolist(), 0
    for (n, arcs), y in zip(F.rd(g), ys):
        k = len(arcs)
        check_eq(n, len(y) + 2, 'states', c)
        a, f = aux[o:o + k], off[o:o + k]
        o += k
        for arc, v in zip(arcs, a):
            check(arc[2] != -1 or v == -1, 'output of the final arc', v, c)
        a = [0 if arc[2] == -1 else v for arc, v in zip(arcs, a)]
        for L in range(4 if len(set(y)) < 3 else 3):
            for x in itertools.product(sorted({0, 7, *y}), repeat=L):
                got = paths(n, arcs, a, f, x)
                check(all(p[0] == tuple(y) for p in got), 'outputs of the graph of', y, 'for', x, got, c)
                want = readings(y, x, ins)
                check(close_lists(sorted((s, q) for _, s, q in got), want), 'paths of the graph of', y, 'for', x, got, 'want', want, c)
    return any(len(y) > 1 for y in ys), [c['form'], f'ins{c["ins"]}'] + (['empty'] if [] in ys else [])


@st.composite
def align_case(draw):
    V = draw(st.integers(1, 4))
    long = draw(st.integers(0, 9)) == 0
    seq = st.lists(st.integers(1, V), max_size=25 if long else 6)
    refs = draw(st.lists(seq, min_size=1, max_size=3))
    hyps = draw(st.lists(seq, min_size=1, max_size=5))
    return dict(refs=refs, hyps=hyps, map=[draw(st.integers(0, len(refs) - 1)) for _ in hyps], sort=draw(st.booleans()),
                ins=draw(st.sampled_from([[None, None]] * 4 + [[-0.25, -0.25], [-0.7, -0.7], [-0.501, -0.6], [-0.3, -0.9], [-1.5, -1.5], [-0.5, -0.5]])),
                times=draw(st.integers(1, 2)), same=draw(st.integers(0, 5)) == 0)


def distance(ref, hyp, ins, dele):
    row = [j * ins for j in range(len(hyp) + 1)]
    for i, a in enumerate(ref):
        new = [(i + 1) * dele]
        for j, b in enumerate(hyp):
            new.append(min(row[j + 1] + dele, new[j] + ins, row[j] + (0 if a == b else 1)))
        row = new
    return row[-1]


def run_align(c):
    refs, hyps, amap = c['refs'], c['hyps'], c['map']
    ri, hi = [-0.501 if v is None else v for v in c['ins']]
    kw = [{} if v is None else dict(ins_del_score=v) for v in c['ins']]
    R = k2.levenshtein_graph(ragged(refs), **kw[0])
    if c['same']:
        H, hyps, amap, hi = R, refs, list(range(len(refs))), ri
    else:
        H = k2.levenshtein_graph(ragged(hyps), **kw[1])
    before = R.aux_labels.tolist(), H.aux_labels.tolist(), H.scores.tolist()
    worst = 0
    for _ in range(c['times']):
        out = k2.levenshtein_alignment(R, H, torch.tensor(amap, dtype=torch.int32), sorted_match_ref=c['sort'])
        check_eq((R.aux_labels.tolist(), H.aux_labels.tolist(), H.scores.tolist()), before, 'the inputs changed', c)
        check_eq(out.shape[0], len(hyps), 'alignments', c)
        tot = out.get_tot_scores(use_double_scores=True, log_semiring=False).tolist()
        rl, hl, o = out.ref_labels.tolist(), out.hyp_labels.tolist(), 0
        for i, (n, arcs) in enumerate(F.rd(out)):
            k = len(arcs)
            a, b = rl[o:o + k], hl[o:o + k]
            o += k
            ref, hyp = refs[amap[i]], hyps[i]
            what = ('ref', ref, 'hyp', hyp, 'arcs', arcs, 'ref_labels', a, 'hyp_labels', b, c)
            check_eq([x[:2] for x in arcs], [(q, q + 1) for q in range(k)], 'not linear', *what)
            check(k and arcs[-1][2] == a[-1] == b[-1] == -1, 'last arc', *what)
            check_eq([v for v in a[:-1] if v], ref, 'ref_labels', *what)
            check_eq([v for v in b[:-1] if v], hyp, 'hyp_labels', *what)
            sub = ins = dele = 0
            for x, p, q in zip(arcs[:-1], a, b):
                check(p or q, 'arc without symbols', *what)
                check_eq(x[2], p if p == q else 0, 'label', *what)
                sub += bool(p and q and p != q)
                ins += p == 0
                dele += q == 0
                check_close(x[3], 0 if p == q else -1, 'score of an arc', *what)
            check_close(tot[i], -(sub + ins + dele), 'total score', *what)
            ci, cd = 0.5 - ri, 0.5 - hi
            best = distance(ref, hyp, ci, cd)
            check_close(sub + ci * ins + cd * dele, best, 'not the best alignment', *what)
            if c['ins'] == [None, None]:
                check_eq(sub + ins + dele, round(distance(ref, hyp, 1, 1)), 'edit distance', *what)
            worst = max(worst, sub + ins + dele)
    return worst > 1, ['sorted' if c['sort'] else 'unsorted', f'ins{c["ins"]}'] + (['same'] if c['same'] else []) + (['again'] if c['times'] > 1 else []) + \
        (['shared ref'] if len(set(amap)) < len(amap) else [])


@st.composite
def big_case(draw):
    how = draw(st.sampled_from(['long', 'long', 'many', 'labels']))
    return dict(how=how, seed=draw(st.integers(0, 10**6)), V=draw(st.sampled_from([1, 2, 5, 50])), n=draw(st.sampled_from([40, 130, 260])),
                top=draw(st.sampled_from([127, 255, 32767, 65535, 65536, 2**31 - 1])), sort=draw(st.booleans()),
                ins=draw(st.sampled_from([[None, None]] * 2 + [[-0.25, -0.25], [-0.3, -0.9], [-1.5, -1.5]])), noise=draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])))


def run_big(c):
    r = random.Random(c['seed'])
    V, n = c['V'], c['n']
    sym = list(range(1, V + 1))
    if c['how'] == 'labels':
        sym = [max(1, c['top'] - r.randint(0, V)) for _ in range(V)] + [1]
        n = 12
    if c['how'] == 'many':
        refs = [[r.choice(sym) for _ in range(r.randint(0, 4))] for _ in range(n * 4)]
    else:
        refs = [[r.choice(sym) for _ in range(r.randint(n // 2, n))] for _ in range(2)]
    hyps, amap = [], []
    for _ in range(n * 5 if c['how'] == 'many' else 2):
        amap.append(r.randrange(len(refs)))
        h = []
        for x in refs[amap[-1]]:
            k = r.random()
            if k < c['noise'] / 3:
                continue
            h.append(r.choice(sym) if k < c['noise'] * 2 / 3 else x)
            if k < c['noise'] and k > c['noise'] * 2 / 3:
                h.append(r.choice(sym))
        hyps.append(h)
    nt, _ = run_align(dict(refs=refs, hyps=hyps, map=amap, sort=c['sort'], ins=c['ins'], times=1, same=False))
    return nt, [c['how']]


SUBS = [Sub('graph', graph_case, run_graph, 500), Sub('big', big_case, run_big, 80), Sub('align', align_case, run_align, 700)]
