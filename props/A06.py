"""A06: linear machines, inversion and label expansion keep label sequences."""
from collections import Counter

import random

import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, check_close, raises

TECHNIQUE = 'linear_fsa/linear_fst (and self-loop versions), invert and expand_ragged_attributes against the label sequences of all paths'
NOTE = 'Paths of input and output are matched as multisets of (input string, score, per-attribute label sequences).'
RULE = ('Sequences of length 0-7 with epsilons, nested lists and ragged tensors; acyclic transducers whose output labels are '
        'integers or lists of 0-3 labels, with further ragged attributes. A share of the machines has labels near the limits of 8, 16 and 31 bits, and some have up to 70000 isolated states. Non-trivial: an epsilon/list is actually involved.')


# ------------------------------------------------------------------ linear
@st.composite
def lin_case(draw):
    single = draw(st.integers(0, 2)) == 0
    n = 1 if single else draw(st.integers(0 if draw(st.integers(0, 9)) == 0 else 1, 5))
    lo = draw(st.sampled_from([0, 1]))
    seqs = [draw(st.lists(st.tuples(st.integers(lo, 4) | st.just(2**30), st.integers(0, 9), st.integers(-40, 40)),
                          max_size=7)) for _ in range(n)]
    return {'seqs': [[list(t) for t in s] for s in seqs], 'single': single, 'ragged': draw(st.booleans()),
            'device': draw(st.sampled_from([None, 'cpu'])), 'final': [draw(st.integers(-40, 40)) for _ in range(n)],
            'at': draw(attrs.spec(['i', 'f', 'obj']))}


def linear_paths(nf):
    """The single arc sequence of a linear machine."""
    n, arcs = nf
    check_eq([(a[0], a[1]) for a in arcs], [(i, i + 1) for i in range(n - 1)], 'linear')
    check(n >= 2, 'no states')
    return arcs


def run_lin(c):
    seqs, single = c['seqs'], c['single']
    lab = [[t[0] for t in s] for s in seqs]
    out = [[t[1] for t in s] for s in seqs]
    if single:
        lab_arg, out_arg = lab[0], out[0]
    else:
        lab_arg, out_arg = lab, out
    if not single and not seqs:
        lab_arg = attrs.rag([])
    elif not single and c['ragged']:
        lab_arg = attrs.rag(lab)
    fsa = k2.linear_fsa(lab_arg, c['device']) if not isinstance(lab_arg, k2.RaggedTensor) else k2.linear_fsa(lab_arg)
    check_eq(len(fsa.shape), 2 if single else 3, 'axes')
    nfs = F.rd(fsa)
    check_eq(len(nfs), len(seqs), 'number of FSAs')
    for nf, s in zip(nfs, lab):
        arcs = linear_paths(nf)
        check_eq([a[2] for a in arcs], s + [-1], 'labels')
        check_eq([a[3] for a in arcs], [0.0] * len(arcs), 'scores')
    if not seqs:
        return False, ['no sequences']
    # with self-loops
    loops = k2.linear_fsa_with_self_loops(fsa)
    check_eq(len(loops.shape), len(fsa.shape), 'axes')
    check_eq(len(F.rd(loops)), len(seqs), 'number of FSAs')
    for o, s in zip(F.rd(loops), lab):
        bad = F.well_formed(o)
        check(bad is None, 'malformed', bad)
        s = [x for x in s if x != 0]
        check_eq(sorted((a[0], a[1], a[2], a[3]) for a in o[1]),
                 sorted([(i, i + 1, x, 0.0) for i, x in enumerate(s + [-1])] + [(i, i, 0, 0.0) for i in range(len(s) + 1)]),
                 'self-loop version')
    # transducer
    fst = k2.linear_fst(lab if not single else lab[0], out_arg)
    aux = fst.aux_labels.tolist()
    check_eq(aux, [x for s in out for x in s + [-1]], 'aux_labels')
    check_eq([[a[2] for a in nf[1]] for nf in F.rd(fst)], [s + [-1] for s in lab], 'labels of the transducer')
    check_eq(len(fst.shape), len(fsa.shape), 'axes')
    sc = [x for s, f in zip(seqs, c['final']) for x in [t[2] / 8 for t in s] + [f / 8]]
    fst.scores = torch.tensor(sc)
    before = F.rd(fst)
    wl = k2.linear_fst_with_self_loops(fst)
    check_eq(len(wl.shape), len(fsa.shape), 'axes')
    got_aux = wl.aux_labels.tolist()
    k = 0
    for o, s, f in zip(F.rd(wl), seqs, c['final']):
        bad = F.well_formed(o)
        check(bad is None, 'malformed', bad)
        want, cur, w = [], [], 0.0
        for l, a, x in s + [[-1, 0, f]]:
            if a > 0:
                cur.append(a)
            w += x / 8
            if l != 0:
                want.append((l, w, cur))
                cur, w = [], 0.0
        got = []
        loopstates = []
        for a in o[1]:
            if a[0] == a[1]:
                check_eq((a[2], a[3], got_aux[k]), (0, 0.0, []), 'self-loop')
                loopstates.append(a[0])
            else:
                check_eq((a[0], a[1]), (len(got), len(got) + 1), 'linear')
                got.append((a[2], a[3], got_aux[k]))
            k += 1
        check_eq(got, want, 'arcs of the self-loop version')
        check_eq(sorted(loopstates), list(range(len(want))), 'self-loops')
    check_eq(len(F.rd(wl)), len(seqs), 'number of FSAs')
    check_eq((F.rd(fst), fst.aux_labels.tolist()), (before, aux), 'input')
    return any(len(s) > 1 and 0 in s for s in lab), ['single' if single else 'vec', 'eps' if any(0 in s for s in lab) else 'no eps']


# ------------------------------------------------------------------ invert
@st.composite
def fst_case(draw):
    single = draw(st.integers(0, 2)) == 0
    mode = draw(st.sampled_from(['top', 'acyclic']))
    if draw(st.integers(0, 4)) == 0:
        fs = draw(gen.big_vec(2, 8, 12))
    else:
        fs = draw(gen.fsa_vec(1 if single else 0, 4, max_states=5, max_arcs=7, top_sorted=mode == 'top'))
    fs = fs[:1] if single else fs
    kinds = draw(st.sampled_from([['aux'], ['raux'], ['raux'], ['raux', 'rag'], ['rag'], ['aux', 'rag']]))
    more = draw(st.lists(st.sampled_from(['f', 'd', 'i', 'l', 'two', 'obj']), unique=True, max_size=3))
    return {'fs': fs, 'single': single, 'at': {'kinds': sorted(kinds + more), 'seed': draw(st.integers(0, 9999)),
                                              'fill': draw(st.booleans())},
            'final': draw(st.sampled_from(['none', 'minus', 'mixed'])), 'maps': draw(st.booleans()),
            'names': draw(st.sampled_from([None, None, 'aux', 'ra'])), 'sloppy': draw(st.integers(0, 2)) == 0}


def build(c):
    fs = c['fs']
    src = F.mk(fs[0]) if c['single'] else F.mk_vec(fs)
    vals = attrs.attach(src, c['at'])
    # list-valued attributes of final arcs may carry a final -1
    labels = src.labels.tolist()
    for name in ('aux_labels', 'ra'):
        if name in vals and vals[name][0] == 'rag' and c['final'] != 'none':
            v = [x + [-1] if l == -1 and (c['final'] == 'minus' or i % 2) else x
                 for i, (x, l) in enumerate(zip(vals[name][1], labels))]
            setattr(src, name, attrs.rag(v))
            vals[name] = ('rag', v, [])
    if c.get('sloppy') and 'aux_labels' in vals and vals['aux_labels'][0] == 'int':
        # no output on final arcs, final marks elsewhere: they stand for epsilon
        r = random.Random(c['at']['seed'])
        v = [r.choice([0, -1]) if l == -1 else r.choice([x, x, -1]) for x, l in zip(vals['aux_labels'][1], labels)]
        src.aux_labels = torch.tensor(v, dtype=torch.int32)
        vals['aux_labels'] = ('int', v, 0)
    return src, vals


def seqs_of(p, v):
    r = []
    for j in p:
        x = v[j]
        r += x if isinstance(x, list) else [x]
    return tuple(x for x in r if x not in (0, -1))


def path_table(nf, cols, limit=2500):
    """Multiset of (score, per-column sequence) over complete paths."""
    r = Counter()
    for p in F.paths(nf, limit):
        r[(round(sum(nf[1][j][3] for j in p), 4),) + tuple(seqs_of(p, v) for v in cols)] += 1
    return r


def cut(nfs, v):
    r, k = [], 0
    for n, a in nfs:
        r.append(v[k:k + len(a)])
        k += len(a)
    return r


def run_invert(c):
    if not any(k in ('aux', 'raux') for k in c['at']['kinds']):
        c = dict(c, at=dict(c['at'], kinds=sorted([k for k in c['at']['kinds']] + ['raux'])))
    src, vals = build(c)
    nfs = F.rd(src)
    aux = vals['aux_labels'][1]
    rag = vals['aux_labels'][0] == 'rag'
    if c['maps']:
        out, amap = k2.invert(src, ret_arc_map=True)
        amap = amap.tolist()
        check_eq(out.uid.tolist(), amap, 'arc map')
    else:
        out = k2.invert(src)
        amap = out.uid.tolist()
    check_eq(len(out.shape), len(src.shape), 'axes')
    outs = F.rd(out)
    check_eq(len(outs), len(nfs), 'number of FSAs')
    o_aux = out.aux_labels.tolist()
    flat = [a for o in outs for a in o[1]]
    for a, x in zip(flat, o_aux):
        check_eq(a[2] == -1, x == -1, 'final marker in aux_labels')
    if not rag:
        lab = [a[2] for nf in nfs for a in nf[1]]
        check_eq([a[2] for a in flat], [-1 if l == -1 else max(x, 0) for l, x in zip(lab, aux)], 'labels')
        check_eq(o_aux, lab, 'aux_labels')
    sorted_in = all(a[1] > a[0] for nf in nfs for a in nf[1])
    nontriv = False
    other = [n for n in vals if n == 'ra']
    cin = [cut(nfs, [a[2] for nf in nfs for a in nf[1]]), cut(nfs, aux)] + [cut(nfs, vals[n][1]) for n in other]
    cout = [cut(outs, o_aux), cut(outs, [a[2] for a in flat])] + [cut(outs, attrs.read(out, n)) for n in other]
    for i, (nf, o) in enumerate(zip(nfs, outs)):
        bad = F.well_formed(o)
        check(bad is None, 'malformed', bad)
        if sorted_in:
            check(all(a[1] > a[0] for a in o[1]), 'not top-sorted')
        try:
            want = path_table(nf, [x[i] for x in cin])
            check_eq(path_table(o, [x[i] for x in cout]), want, 'paths')
            nontriv |= any(k[1] and len(k[2]) > 1 for k in want)
        except F.TooBig:
            pass
    rest = {n: v for n, v in vals.items() if n != 'aux_labels'}
    attrs.check_unary(out, rest, c['at'], amap)
    check_eq(sorted(x for x in amap if x >= 0), list(range(sum(len(nf[1]) for nf in nfs))), 'arc map')
    if not rag:
        # twice is the identity
        back = k2.invert(out)
        check_eq(F.rd(back), nfs, 'inverted twice')
        check_eq(back.aux_labels.tolist(), [a[2] for a in flat], 'aux_labels, inverted twice')
    attrs.check_unchanged(src, vals)
    check_eq(F.rd(src), nfs, 'input')
    return nontriv, ['ragged' if rag else 'linear', 'single' if c['single'] else 'vec']


def run_expand(c):
    src, vals = build(c)
    nfs = F.rd(src)
    ragged = [n for n in vals if vals[n][0] == 'rag']
    names = None
    if c['names'] == 'aux' and 'aux_labels' in ragged:
        names = ['aux_labels']
    elif c['names'] == 'ra' and 'ra' in ragged:
        names = ['ra']
    done = ragged if names is None else names
    if c['maps']:
        out, amap = k2.expand_ragged_attributes(src, ret_arc_map=True, ragged_attribute_names=names)
        amap = amap.tolist()
        check_eq(out.uid.tolist(), amap, 'arc map')
    else:
        out = k2.expand_ragged_attributes(src, ragged_attribute_names=names)
        amap = out.uid.tolist()
    if not ragged:
        check(out is src, 'without ragged attributes the input itself is returned')
        return False, ['nothing ragged']
    check_eq(len(out.shape), len(src.shape), 'axes')
    outs = F.rd(out)
    check_eq(len(outs), len(nfs), 'number of FSAs')
    flat = [a for o in outs for a in o[1]]
    for n in done:
        v = getattr(out, n)
        check(isinstance(v, torch.Tensor), 'attribute not linear', n)
        for a, x in zip(flat, v.tolist()):
            check_eq(a[2] == -1, x == -1, 'final marker in', n)
    nontriv = False
    cols = [n for n in vals if vals[n][0] == 'rag' or n == 'aux_labels']
    cin = [cut(nfs, [a[2] for nf in nfs for a in nf[1]])] + [cut(nfs, vals[n][1]) for n in cols]
    cin.append(cut(nfs, [i + 1 for i in range(len(cin[0]) and sum(len(nf[1]) for nf in nfs))]))
    cout = [cut(outs, [a[2] for a in flat])] + [cut(outs, attrs.read(out, n)) for n in cols]
    cout.append(cut(outs, [x + 1 for x in amap]))
    for i, (nf, o) in enumerate(zip(nfs, outs)):
        bad = F.well_formed(o)
        check(bad is None, 'malformed', bad)
        try:
            want = path_table(nf, [x[i] for x in cin])
            check_eq(path_table(o, [x[i] for x in cout]), want, 'paths')
            nontriv |= any(len(s) > 1 for k in want for s in k[2:-1])
        except F.TooBig:
            pass
    arcs = [a for nf in nfs for a in nf[1]]
    check_eq(sorted(x for x in amap if x >= 0), list(range(len(arcs))), 'arc map')
    for a, x in zip(flat, amap):
        check_eq(a[3], arcs[x][3] if x >= 0 else 0.0, 'score')
    rest = {n: v for n, v in vals.items() if n not in done and n != 'aux_labels'}
    attrs.check_unary(out, rest, c['at'], amap)
    attrs.check_unchanged(src, vals)
    check_eq(F.rd(src), nfs, 'input')
    return nontriv, ['%d ragged' % len(done), 'single' if c['single'] else 'vec']


SUBS = [Sub('linear', lin_case, run_lin, 3500), Sub('invert', lambda: gen.spread(gen.wide(fst_case(), ['fs']), ['fs'], 100), run_invert, 5000),
        Sub('expand', lambda: gen.spread(gen.wide(fst_case(), ['fs']), ['fs'], 100), run_expand, 5000)]
