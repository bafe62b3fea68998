"""D01: dense FSA vectors and exact dense intersection."""
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import dense, fsa as F, attrs
from vlib.core import Sub, check, check_eq, raises

TECHNIQUE = 'random decoding graphs, score matrices and segmentations against an exact trellis (every arc of every frame)'
NOTE = ('Scores are multiples of 1/8, so that the expected set of arcs is exact; arcs exactly at the beam may go either way. '
        'Labels the network does not have count as impossible.')
RULE = ('dense: segments with overlaps, offsets, truncation, gradients. exact: graphs with cycles, empty members, -inf scores, sharing maps, '
        'beams, attributes, frame names, gradients. limits: max_states/max_arcs. '
        'big: more than 65535 states, labels, frames or graphs. Non-trivial: at least two paths and (exact) the beam drops some arc or two graphs share a segment.')

NEG = float('-inf')


@st.composite
def segments(draw, T, N, sort, kmin=1, kmax=4, allow=0, zero=False):
    k = draw(st.integers(kmin, kmax))
    segs = []
    for _ in range(k):
        s = draw(st.integers(0, T - 1))
        d = draw(st.integers(0 if zero else 1, T + allow - s))
        segs.append([draw(st.integers(0, N - 1)), s, d])
    if sort:
        segs.sort(key=lambda x: -(min(x[1] + x[2], T) - x[1]))
    return segs


@st.composite
def dense_case(draw):
    N, T, C = draw(st.integers(1, 3)), draw(st.integers(1, 6)), draw(st.integers(1, 4))
    allow = draw(st.sampled_from([0, 0, 1, 3]))
    return dict(N=N, T=T, C=C, allow=allow, segs=draw(segments(T, N, False, allow=allow, zero=draw(st.integers(0, 3)) == 0)), seed=draw(st.integers(0, 10**6)),
                lay=draw(st.sampled_from(['c', 'c', 't', 's'])))


def run_dense(c):
    r = random.Random(c['seed'])
    N, T, C = c['N'], c['T'], c['C']
    mat = dense.matrix(r, N, T, C, 0.1)
    base = dense.tensor(mat)
    leaf = base.clone().requires_grad_(True)
    lp = leaf
    if c['lay'] == 't':
        lp = leaf.transpose(0, 1).contiguous().transpose(0, 1)
    elif c['lay'] == 's':
        lp = torch.stack([leaf, leaf + 1], dim=-1)[..., 0]
    segs = torch.tensor(c['segs'], dtype=torch.int32).reshape(-1, 3)
    d = k2.DenseFsaVec(lp, segs, allow_truncate=c['allow'])
    fr = [dense.frames(mat, s, T) for s in c['segs']]
    check_eq(d.dim0(), len(fr), 'dim0', c)
    check_eq(d.duration.tolist(), [len(f) for f in fr], 'duration', c)
    want = []
    for f in fr:
        want += [[NEG] + row for row in f] + [[0.0] + [NEG] * C]
    check_eq(d.scores.tolist(), want, 'scores', c)
    check_eq(d.dense_fsa_vec.shape().row_splits(1).tolist(), [sum(len(x) + 1 for x in fr[:i]) for i in range(len(fr) + 1)], 'shape', c)
    check_eq(d.dense_fsa_vec.scores_dim1(), C + 1, 'columns', c)
    check(d.is_cpu() and not d.is_cuda() and d.to('cpu') is d and str(d), 'device', c)
    v = k2.convert_dense_to_fsa_vec(d)
    got = F.rd(v)
    check_eq(len(got), len(fr), 'FSAs', c)
    for g, f in zip(got, fr):
        arcs = [(t, t + 1, l, row[l]) for t, row in enumerate(f) for l in range(C)] + [(len(f), len(f) + 1, -1, 0.0)]
        check_eq(g[0], len(f) + 2, 'states', c)
        check_eq([tuple(a) for a in g[1]], arcs, 'arcs', c)
    w = torch.tensor([[r.randint(-8, 8) / 4 for _ in range(C + 1)] for _ in want])
    torch.where(torch.isinf(d.scores), torch.zeros(()), d.scores * w).nan_to_num(0, 0, 0).sum().backward()
    ref = torch.zeros(N, T, C)
    row = 0
    for s, f in zip(c['segs'], fr):
        for t in range(len(f)):
            for l in range(C):
                if f[t][l] > NEG:
                    ref[s[0], s[1] + t, l] += w[row + t, l + 1]
        row += len(f) + 1
    check(torch.equal(leaf.grad.nan_to_num(0), ref), 'gradient', leaf.grad.tolist(), ref.tolist(), c)
    check(torch.equal(leaf.detach(), base), 'the input changed', c)
    # scores as they were: independent of later edits of the input
    with torch.no_grad():
        leaf.add_(1)
    check_eq(d.scores.tolist(), want, 'scores after editing the input', c)
    return len(fr) > 1 or C > 1, [f'k{len(fr)}', c['lay'], f'allow{c["allow"]}'] + (['truncated'] if any(s[1] + s[2] > T for s in c['segs']) else [])


@st.composite
def exact_case(draw):
    N, T, C = draw(st.integers(1, 2)), draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8])), draw(st.integers(1, 4))
    segs = draw(segments(T, N, True, kmax=4))
    k = len(segs)
    kind = draw(st.sampled_from(['none', 'none', 'id', 'map', 'map', 'map']))
    amap = None if kind == 'none' else list(range(k)) if kind == 'id' else sorted(draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=5)))
    return dict(N=N, T=T, C=C, segs=segs, amap=amap, seed=draw(st.integers(0, 10**6)), beam=draw(st.sampled_from([0.25, 0.5, 1.0, 1.0, 2.0, 4.0, 8.0, 1000.0])),
                neginf=draw(st.sampled_from([0, 0, 0.1, 0.4])), empty=draw(st.sampled_from([0, 0, 0, 0.3])), oor=draw(st.sampled_from([0, 0, 0, 0.15])),
                at=draw(attrs.spec()), names=draw(st.sampled_from([[None, None], ['sf', 'fr'], ['sf', None], [None, 'fr']])), grad=draw(st.integers(0, 3)) > 0,
                n=draw(st.sampled_from([None, None, 2, 3, 8])), limit=None, bad=draw(st.sampled_from([None] * 20 + ['order', 'map', 'count'])))


def graphs(c, r, count):
    return [{'n': 0, 'arcs': []} if r.random() < c['empty'] else dense.graph(r, c['C'], n=c['n'], m=c.get('m'), oor=c['oor']) for _ in range(count)]


def compare(g, fr, got, arcinfo, beam, what, exact=True):
    """One output FSA against the trellis. arcinfo: per output arc (a-arc index within g, frame)."""
    fwd, bwd, best, arcs = dense.trellis(g, fr)
    D = len(fr)
    if best == NEG:
        check_eq(len(got['arcs']), 0, 'arcs although there is no path', what)
        return best, arcs, set()
    states = {}
    seen = set()

    def put(o, ts):
        check(states.setdefault(o, ts) == ts, 'state', o, 'stands for', states[o], 'and', ts, *what)
    for (s, d, l, w), (a, t) in zip(got['arcs'], arcinfo):
        check((t, a) in arcs, 'arc', (s, d, l, w), 'is on no path: graph arc', a, 'frame', t, *what)
        check((t, a) not in seen, 'graph arc twice', a, t, *what)
        seen.add((t, a))
        ga = g['arcs'][a]
        check_eq(l, ga[2], 'label', *what)
        check(abs(w - arcs[t, a][0]) < 1e-4, 'score', w, 'want', arcs[t, a][0], 'graph arc', a, 'frame', t, *what)
        check(s < d, 'not top-sorted', s, d, *what)
        put(s, (t, ga[0]))
        put(d, (t + 1, ga[1]))
    check_eq(len(set(states.values())), len(states), 'two states for the same (frame, graph state)', states, *what)
    check_eq(got['n'], len(states), 'number of states', *what)
    check_eq(states.get(0), (0, 0), 'start state', *what)
    check_eq(states.get(got['n'] - 1), (D + 1, g['n'] - 1), 'final state', *what)
    eps = 1e-4 * (1 + abs(best) / 100)
    for k, (s, v) in arcs.items():
        if v > best - beam + eps:
            check(k in seen, 'missing: graph arc', k[1], 'at frame', k[0], 'is on a path of score', v, 'best', best, 'beam', beam, *what)
        elif exact and v < best - beam - eps:
            check(k not in seen, 'beyond the beam: graph arc', k[1], 'at frame', k[0], 'best path through it', v, 'best', best, 'beam', beam, *what)
    return best, arcs, seen


def run_exact(c):
    r = random.Random(c['seed'])
    N, T, C, segs = c['N'], c['T'], c['C'], c['segs']
    mat = dense.matrix(r, N, T, C, c['neginf'])
    amap = c['amap'] if c['amap'] is not None else list(range(len(segs)))
    gs = graphs(c, r, len(amap))
    lp = dense.tensor(mat).requires_grad_(c['grad'])
    d = k2.DenseFsaVec(lp, torch.tensor(segs, dtype=torch.int32))
    a = F.mk_vec(gs)
    vals = attrs.attach(a, c['at'])
    if c['grad']:
        a.requires_grad_(True)
    kw = {}
    if c['amap'] is not None:
        kw['a_to_b_map'] = torch.tensor(amap, dtype=torch.int32)
    sf, frn = c['names']
    if c['bad']:
        dur = [len(dense.frames(mat, s, T)) for s in segs]
        if c['bad'] == 'order' and dur != sorted(dur)[:] and len(set(dur)) > 1:
            d2 = k2.DenseFsaVec(lp, torch.tensor(segs[::-1], dtype=torch.int32))
            raises(lambda: k2.intersect_dense(a, d2, c['beam'], **kw), 'segments not in decreasing order', c)
        elif c['bad'] == 'map' and len(set(amap)) > 1:
            raises(lambda: k2.intersect_dense(a, d, c['beam'], a_to_b_map=torch.tensor(amap[::-1], dtype=torch.int32)), 'decreasing map', c)
        elif c['bad'] == 'count':
            raises(lambda: k2.intersect_dense(a, d, c['beam'], a_to_b_map=torch.tensor(amap + [len(segs) - 1], dtype=torch.int32)), 'map of another length', c)
        else:
            return False, ['bad:none']
        return True, ['bad:' + c['bad']]
    lim = c.get('limit')
    if lim:
        # a limit that the best paths fit in
        st, ar = 0, 0
        for i, g in enumerate(gs):
            _, _, best, arcs = dense.trellis(g, dense.frames(mat, segs[amap[i]], T))
            top = {(t, g['arcs'][k][0]) for (t, k), (_, v) in arcs.items() if v > best - 1e-3}
            st += len(top) + 1
            ar += sum(1 for t, x in top for y in g['arcs'] if y[0] == x)
        lim = {k: max(v, st if k == 'max_states' else ar) for k, v in lim.items()}
        kw.update(lim)
    out = k2.intersect_dense(a, d, output_beam=c['beam'], seqframe_idx_name=sf, frame_idx_name=frn, **kw)
    got = [{'n': x[0], 'arcs': x[1]} for x in F.rd(out)]
    check_eq(len(got), len(amap), 'FSAs', c)
    uid = out.uid.tolist()
    attrs.check_unary(out, vals, c['at'], uid, c)
    attrs.check_unchanged(a, vals, c)
    base, o, rows = 0, 0, [0]
    for s in segs:
        rows.append(rows[-1] + len(dense.frames(mat, s, T)) + 1)
    offs = []
    for g in gs:
        offs.append(base)
        base += len(g['arcs'])
    nontriv, dropped = False, False
    gw = [r.randint(-8, 8) / 4 for _ in uid]
    ga, gb = [0.0] * base, torch.zeros(N, T, C)
    nstates = 0
    for i, (g, h) in enumerate(zip(gs, got)):
        fr = dense.frames(mat, segs[amap[i]], T)
        k = len(h['arcs'])
        ids = [u - offs[i] for u in uid[o:o + k]]
        check(all(0 <= u < len(g['arcs']) for u in ids), 'arc of another graph', ids, c)
        # frames from the structure: distance from the start state
        dist = {0: 0}
        for s, dd, _, _ in h['arcs']:
            check(s in dist, 'state', s, 'is entered after it is left', h, c)
            check(dist.setdefault(dd, dist[s] + 1) == dist[s] + 1, 'paths of different lengths to', dd, h, c)
        t = [dist[s] for s, _, _, _ in h['arcs']]
        if frn:
            check_eq(getattr(out, frn).tolist()[o:o + k], t, 'frame indexes', c)
        if sf:
            check_eq(getattr(out, sf).tolist()[o:o + k], [rows[amap[i]] + x for x in t], 'sequence frame indexes', c)
        if lim:
            # some smaller beam: everything kept is genuine and the set is that of a beam
            fwd, bwd, best, arcs = dense.trellis(g, fr)
            kept = [arcs[x, y][1] for x, y in zip(t, ids) if (x, y) in arcs]
            beam = min(c['beam'], best - min(kept) + 1e-3) if kept else c['beam']
            if best > NEG and not kept:
                nstates += h['n']
                o += k
                continue
        else:
            beam = c['beam']
        best, arcs, seen = compare(g, fr, h, list(zip(ids, t)), beam, (c, 'graph', g, 'frames', fr))
        dropped = dropped or len(seen) < len(arcs)
        nontriv = nontriv or len(seen) > len(fr) + 1
        for j in range(k):
            ga[offs[i] + ids[j]] += gw[o + j]
            l = g['arcs'][ids[j]][2]
            if l >= 0:
                gb[segs[amap[i]][0], segs[amap[i]][1] + t[j], l] += gw[o + j]
        o += k
        nstates += h['n']
    if lim:
        check(nstates <= lim.get('max_states', 10**9), 'max_states', nstates, c)
        check(len(uid) <= lim.get('max_arcs', 10**9), 'max_arcs', len(uid), c)
    check_eq(o, len(uid), 'arcs', c)
    if c['grad'] and not lim:
        check(out.requires_grad, 'no gradient', c)
        (out.scores * torch.tensor(gw)).sum().backward()
        check_eq(a.scores.grad.tolist(), ga, 'gradient of the graph', c)
        check(torch.equal(lp.grad, gb), 'gradient of the network output', lp.grad.tolist(), gb.tolist(), c)
    else:
        check(c['grad'] or not out.requires_grad, 'gradient', c)
    check_eq(F.rd(a), [F.as_f(g) for g in gs], 'graphs changed', c)
    check(torch.equal(lp.detach(), dense.tensor(mat)), 'network output changed', c)
    lab = ['none' if c['amap'] is None else 'map'] + (['shared'] if len(set(amap)) < len(amap) else []) + (['unused'] if len(set(amap)) < len(segs) else [])
    return nontriv and (dropped or 'shared' in lab), lab + ([f'beam{c["beam"]:g}'] if not lim else ['limit'])


@st.composite
def limit_case(draw):
    c = draw(exact_case())
    c.update(bad=None, beam=draw(st.sampled_from([8.0, 1000.0])), grad=False, names=[None, None], n=draw(st.sampled_from([3, 5, 8])), neginf=0)
    c['limit'] = {draw(st.sampled_from(['max_states', 'max_arcs'])): draw(st.integers(8, 60))}
    return c


@st.composite
def big_case(draw, pruned=False):
    seed = draw(st.integers(0, 10**6))
    mode = (['states', 'wide'] * 8 + ['count'])[seed % 17] if pruned else (['states', 'wide', 'far'] * 5 + ['frames', 'count'])[seed % 17]
    return dict(mode=mode, C=draw(st.integers(2, 4)), T=draw(st.integers(1, 5)),
                n=draw(st.integers(3, 6)), off=draw(st.integers(-2, 6)), k=draw(st.integers(1, 3)), beam=draw(st.sampled_from([1.0, 4.0, 1000.0])), seed=seed)


def run_big(c, pruned=False):
    """Sizes beyond 65535: states, labels, frames, graphs."""
    r = random.Random(c['seed'])
    mode, C, T = c['mode'], c['C'], c['T']
    top = 65536 + c['off']
    if mode == 'frames':
        T = top
    mat = dense.matrix(r, 1, T, C, 0.0)
    gs = [dense.graph(r, C, n=c['n'], m=8, oor=0.3 if mode == 'far' else 0) for _ in range(1 if mode == 'frames' else c['k'])]
    lp = dense.tensor(mat)
    lab = list(range(C + 3))
    if mode == 'far':           # labels that the network does not have
        lab = list(range(C)) + sorted(r.sample(range(65535, 65540 + C), 3))
    elif mode == 'wide':        # ... and that it does
        W = top + C
        lab = sorted(r.sample([0, 1, 2] + list(range(65533, W)), C))
        full = torch.randint(-40, 1, (1, T, W), generator=torch.Generator().manual_seed(c['seed'])) / 8
        full[:, :, lab] = lp
        lp = full
    shown = []
    for g in gs:
        pos = list(range(c['n']))
        if mode == 'states':
            n = top + r.choice([0, 0, 5000, 65536])
            pos = [0] + sorted(r.sample(range(1, n - 1), c['n'] - 2) if r.random() < .5 else range(n - c['n'] + 1, n - 1)) + [n - 1]
        shown.append({'n': pos[-1] + 1, 'arcs': [[pos[s], pos[d], lab[l] if l >= 0 else l, w] for s, d, l, w in g['arcs']]})
    a = F.mk_vec(shown)
    a.uid = torch.arange(a.num_arcs, dtype=torch.int32)
    seg = [0, 0, T]
    fr = dense.frames(mat, seg, T)
    K = len(gs)

    def cut(v, n):
        if pruned:
            return k2.intersect_dense_pruned(v, k2.DenseFsaVec(lp, torch.tensor([seg] * n, dtype=torch.int32)), 1e4, c['beam'], 0, 10**6)
        return k2.intersect_dense(v, k2.DenseFsaVec(lp, torch.tensor([seg], dtype=torch.int32)), c['beam'], a_to_b_map=torch.zeros(n, dtype=torch.int32))
    out = cut(a, K)
    if mode == 'count':         # more than 65535 graphs
        idx = (torch.arange(top) % K).to(torch.int32)
        want, many = k2.index_fsa(out, idx), cut(k2.index_fsa(a, idx), top)
        check_eq(many.shape[0], top, 'FSAs', c)
        check(torch.equal(many.arcs.row_splits(1), want.arcs.row_splits(1)) and torch.equal(many.arcs.row_splits(2), want.arcs.row_splits(2)) and
              torch.equal(many.arcs.values(), want.arcs.values()), 'copies of a graph differ', c)
        check(torch.equal(many.uid, want.uid), 'attributes of copies differ', c)
    got = [{'n': x[0], 'arcs': x[1]} for x in F.rd(out)]
    check_eq(len(got), K, 'FSAs', c)
    uid, o, base, nontriv = out.uid.tolist(), 0, 0, False
    back = {l: i for i, l in enumerate(lab)}
    for g, h in zip(gs, got):
        k = len(h['arcs'])
        dist = {0: 0}
        for s, dd, _, _ in h['arcs']:
            check(s in dist and dist.setdefault(dd, dist[s] + 1) == dist[s] + 1, 'frames of state', s, dd, c)
        ids = [u - base for u in uid[o:o + k]]
        check(all(0 <= u < len(g['arcs']) for u in ids), 'arc of another graph', ids[:9], c)
        h = {'n': h['n'], 'arcs': [(s, dd, back.get(l, l), w) for s, dd, l, w in h['arcs']]}
        compare(g, fr, h, [(x, dist[y[0]]) for x, y in zip(ids, h['arcs'])], c['beam'], (c,))
        o += k
        base += len(g['arcs'])
        nontriv = nontriv or k > T + 1
    return nontriv, [mode]


SUBS = [
    Sub('dense', dense_case, run_dense, 4000),
    Sub('exact', exact_case, run_exact, 9000),
    Sub('limits', limit_case, run_exact, 1600),
    Sub('big', big_case, run_big, 160),
]
