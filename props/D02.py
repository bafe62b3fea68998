"""D02: beam-pruned dense intersection, at once and in chunks."""
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import dense, fsa as F, attrs
from vlib.core import Sub, check, check_eq
from props import D01

TECHNIQUE = 'random decoding graphs and score matrices, at once and as random chunk schedules over several streams, against an exhaustive trellis with the promised beams'
NOTE = ('A path must be returned when each of its prefixes is within the search beam of the best prefix of that length, its total is within the output beam, and no '
        'frame can have more active states than allowed; nothing but genuine complete paths may be returned ever. Utterances of at most 20 frames are pruned '
        'exactly to the output beam; longer ones are pruned in windows of 30 frames, so only their last window is exact and dead ends may remain before it. '
        'The same goes for lattices of the online decoder. Active-state limits are advisory and no bound is checked. '
        'Within one call all streams that will continue have chunks of the same length. Labels are below the number of columns.')
RULE = ('batch: shared or separate graphs, empty members, ragged lengths, beams, active-state limits, partial results, attributes, frame names, gradients, one '
        'sequence of each batch decoded again alone. long: 21 to 75 frames. online: rounds of chunks over up to 4 streams in any grouping. '
        'big: more than 65535 states, labels, frames or sequences. Non-trivial: at least two paths and (batch, long) some arc of a complete path was pruned, or (online) at least two chunks.')

NEG = float('-inf')
EPS = 2e-3


def restricted(g, fr, beam, partial=False):
    """(kept {(t, arc): (score, best surviving path through it)}, best of all paths, largest number of states on a frame, states at the last frame: all, surviving)."""
    n, D = g['n'], len(fr)
    arcs = [(s, d, l, F.f8(w)) for s, d, l, w in g['arcs']]
    if not n:
        return {}, NEG, 0, set(), set()

    def sc(t, a):
        if t == D:
            return a[3] if a[2] == -1 or partial else NEG
        return a[3] + fr[t][a[2]] if a[2] >= 0 else NEG

    def to(t, a):
        return n - 1 if t == D else a[1]
    full, part = {0: 0.0}, {0: 0.0}
    kept, layers, most = [], [], 1
    for t in range(D + 1):
        nf, cand = {}, []
        for i, a in enumerate(arcs):
            w = sc(t, a)
            if w == NEG:
                continue
            if a[0] in full:
                nf[to(t, a)] = max(nf.get(to(t, a), NEG), full[a[0]] + w)
            if a[0] in part:
                cand.append((i, a, w, part[a[0]] + w))
        top = max(nf.values(), default=NEG)
        # the scores of the surviving states are those of their best prefix; a prefix has to survive by itself
        cand = [x for x in cand if t == D or x[3] > top - beam + EPS]
        np_ = {}
        for i, a, w, v in cand:
            np_[to(t, a)] = max(np_.get(to(t, a), NEG), v)
        kept.append(cand)
        layers.append(part)
        if t == D:
            lasts = set(full), set(part)
        full, part = nf, np_
        most = max(most, len(nf))
    best = full.get(n - 1, NEG)
    out = {}
    bwd = {n - 1: 0.0} if n - 1 in part else {}
    for t in range(D, -1, -1):
        nb = {}
        for i, a, w, _ in kept[t]:
            if to(t, a) in bwd:
                v = w + bwd[to(t, a)]
                nb[a[0]] = max(nb.get(a[0], NEG), v)
                out[t, i] = (w, layers[t][a[0]] + v)
        bwd = nb
    return out, best, most, lasts[0], lasts[1]


def lattice(h):
    """Best path score through every arc of an output FSA, and its best total."""
    n = h['n']
    fwd, bwd = [NEG] * n, [NEG] * n
    if n == 0:
        return [], NEG
    fwd[0], bwd[-1] = 0.0, 0.0
    for s, d, l, w in h['arcs']:
        fwd[d] = max(fwd[d], fwd[s] + w)
    for s, d, l, w in reversed(h['arcs']):
        bwd[s] = max(bwd[s], w + bwd[d])
    return [fwd[s] + w + bwd[d] for s, d, l, w in h['arcs']], fwd[-1]


def examine(g, fr, h, ids, c, what, online=False):
    """Checks one output FSA; ids: graph arc of every arc, -1 for arcs added by allow_partial. Returns (frames of the arcs, labels)."""
    D, sb, ob, partial = len(fr), c['sb'], c['ob'], c['partial']
    labels = []
    if g['n'] == 0:
        check_eq(h, {'n': 0, 'arcs': []}, 'output for an empty graph', *what)
        return [], ['empty']
    check(h['n'] >= 2, 'no start and final state', h, *what)
    check_eq([a[0] for a in h['arcs']], sorted(a[0] for a in h['arcs']), 'arcs not in the order of states', *what)
    # time of the states
    where = {0: (0, 0)}
    times, seen, was_partial = [], set(), False
    garcs = g['arcs']
    live = {a[0] for a in h['arcs']} | {a[1] for a in h['arcs']}
    for (s, d, l, w), u in zip(h['arcs'], ids):
        check(s in where, 'state', s, 'is not entered before it is left', h, *what)
        t, gs = where[s]
        times.append(t)
        check(s < d, 'not top-sorted', h, *what)
        check(t <= D, 'path longer than the sequence', h, *what)
        if t == D:
            check(d == h['n'] - 1 and l == -1, 'last arc', (s, d, l, w), h, *what)
            dest = (D + 1, g['n'] - 1)
            if u == -1 or partial and garcs[u][2] != -1:
                check(partial, 'arc that is not in the graph', (s, d, l, w), *what)
                check_eq(u, -1, 'graph arc of an added arc', *what)
                was_partial = True
            else:
                check_eq(garcs[u][2], -1, 'label of the graph arc', garcs[u], *what)
        if t < D or u != -1:
            check(0 <= u < len(garcs), 'graph arc', u, *what)
            ga = garcs[u]
            check_eq((ga[0], ga[2]), (gs, l), 'source state and label of graph arc', u, 'used for', (s, d, l, w), *what)
            want = F.f8(ga[3]) + (fr[t][l] if t < D else 0.0)
            check(abs(w - want) < 1e-3 and w > NEG, 'score', w, 'want', want, 'graph arc', u, 'frame', t, *what)
            check((t, u) not in seen, 'graph arc', u, 'twice at frame', t, *what)
            seen.add((t, u))
            dest = (t + 1, ga[1])
        check(where.setdefault(d, dest) == dest, 'state', d, 'stands for', where.get(d), 'and', dest, *what)
    check_eq(len(set(where.values())), len(where), 'two states for the same (frame, graph state)', where, *what)
    kept, best, most, full, safe = restricted(g, fr, sb)
    if partial:
        ends = {a[0] for a in garcs if a[2] == -1}
        if safe & ends and (most <= c['maxa'] or not was_partial):     # (above max_active the beam shrinks)
            check(not was_partial, 'partial result although a final state is active', *what)
        elif full and not full & ends:
            kept, best, most, full, safe = restricted(g, fr, sb, True)
            check(was_partial or not h['arcs'] or not any(t == D for t in times), 'no partial result', h, *what)
            labels.append('partial')
            # the added arcs are not told apart
            got = sorted((where[a[0]][1], round(a[3], 3)) for a, u in zip(h['arcs'], ids) if u == -1)
            could = [(a[0], F.f8(a[3])) for a in garcs]
            for s, w in got:
                check(any(s == x and abs(w - y) < 2e-3 for x, y in could), 'added arc', (s, w), *what)
        elif was_partial:
            kept = {}                # depends on which states were active: no promise
            best = None
            labels.append('partial?')
    total, found = lattice(h)
    if best is not None:
        check(found <= best + EPS, 'best path of the output', found, 'is better than the best path', best, *what)
    if most <= c['maxa'] and best is not None:
        for (t, u), (w, v) in sorted(kept.items()):
            if v < best - ob + EPS:
                continue
            if t == D and was_partial:
                gs = garcs[u][0]
                check(any(where[a[0]] == (D, gs) and abs(a[3] - w) < 1e-3 for a, x in zip(h['arcs'], ids) if x == -1), 'missing end', u, 'in', h, *what)
                continue
            check((t, u) in seen, 'missing: graph arc', u, garcs[u], 'at frame', t, 'is on a path of score', v, 'within both beams; best', best, 'output', h, *what)
    else:
        labels.append('limited')
    # what is there belongs to complete paths within the output beam
    first = 0 if D < 20 else D + 1 - 30 if False else last_window(D + 1)
    for (s, d, l, w), t, v in zip(h['arcs'], times, total):
        if not online and t >= first:
            check(v >= found - ob - EPS and v > NEG, 'arc', (s, d, l, w), 'at frame', t, 'is beyond the output beam or on no complete path: best path through it', v,
                  'best', found, h, *what)
    if not online and D < 20:
        check_eq(len(live | {0, h['n'] - 1}), h['n'], 'states on no path', h, *what)
    exact = dense.trellis(g, fr)[3]
    if len(exact) > len(seen):
        labels.append('pruned')
    if len(exact) > D + 1:
        labels.append('paths')
    if best is not None and best > NEG and found == NEG:
        labels.append('lost')
    return times, labels


def last_window(T):
    b = -10
    while b + 30 < T:
        b += 20
    return max(0, b)


def make(r, c, count):
    gs = []
    for _ in range(count):
        if r.random() < c['empty']:
            gs.append({'n': 0, 'arcs': []})
            continue
        g = dense.graph(r, c['C'], n=c['n'], m=c['m'] or None, final=c['fin'])
        for a in g['arcs']:
            a[3] = a[3] + r.uniform(-1, 1)
            a[3] = float(torch.tensor(a[3] / 8)) * 8
        if r.random() < c['dead']:
            g['arcs'] = [a for a in g['arcs'] if a[2] != -1] or g['arcs']
        gs.append(g)
    return gs


def matrix(r, c, N, T):
    return [[[NEG if r.random() < c['neginf'] else float(torch.tensor(r.uniform(-5, 0))) for _ in range(c['C'])] for _ in range(T)] for _ in range(N)]


beams = dict(sb=st.sampled_from([0.5, 1.0, 2.0, 4.0, 8.0, 20.0, 1000.0]), ob=st.sampled_from([0.5, 1.0, 2.0, 4.0, 8.0, 1000.0]),
             mina=st.sampled_from([0, 0, 0, 1, 2]), maxa=st.sampled_from([3, 4, 6, 100, 1000, 1000]))
common = dict(C=st.integers(1, 4), n=st.sampled_from([None, None, 2, 3, 8]), m=st.sampled_from([0, 0, 2, 6, 25]), fin=st.sampled_from([0.2, 0.6, 1.0]),
              dead=st.sampled_from([0, 0, 0.3]), neginf=st.sampled_from([0, 0, 0, 0.1, 0.3]), partial=st.booleans(), seed=st.integers(0, 10**6), **beams)


@st.composite
def batch_case(draw, long=False):
    N = draw(st.integers(1, 2 if long else 4))
    lens = [draw(st.integers(21, 75) if long else st.sampled_from([1, 1, 2, 3, 4, 5, 6, 8, 12, 19])) for _ in range(N)]
    c = {k: draw(v) for k, v in common.items()}
    return dict(c, lens=lens, shared=draw(st.booleans()), two=draw(st.booleans()), empty=draw(st.sampled_from([0, 0, 0, 0, 0.3])), at=draw(attrs.spec()),
                names=draw(st.sampled_from([[None, None], ['sf', 'fr'], ['sf', None], [None, 'fr']])), grad=draw(st.integers(0, 3)) > 0)


def run_batch(c):
    r = random.Random(c['seed'])
    lens = c['lens']
    N, T = len(lens), max(lens)
    gs = make(r, c, 1 if c['shared'] else N)
    mat = matrix(r, c, N, T)
    if c['two'] and len(gs) == 1:
        a = F.mk(gs[0])
    else:
        a = F.mk_vec(gs)
    vals = attrs.attach(a, c['at'])
    lp = torch.tensor(mat, dtype=torch.float32).requires_grad_(c['grad'])
    if c['grad']:
        a.requires_grad_(True)
    segs = torch.tensor([[i, 0, x] for i, x in enumerate(lens)], dtype=torch.int32)
    d = k2.DenseFsaVec(lp, segs)
    sf, frn = c['names']
    args = (c['sb'], c['ob'], c['mina'], c['maxa'])
    out = k2.intersect_dense_pruned(a, d, *args, seqframe_idx_name=sf, frame_idx_name=frn, allow_partial=c['partial'])
    got = [{'n': x[0], 'arcs': x[1]} for x in F.rd(out)]
    check_eq(len(got), N, 'FSAs', c)
    uid = out.uid.tolist()
    attrs.check_unchanged(a, vals, c)
    offs, base = [], 0
    for g in gs:
        offs.append(base)
        base += len(g['arcs'])
    labels, o = set(), 0
    ga, gb = [0.0] * base, torch.zeros(N, T, c['C'])
    gw = [r.randint(-8, 8) / 4 for _ in uid]
    added = 0
    src = []
    for i, h in enumerate(got):
        j = 0 if c['shared'] else i
        g, fr = gs[j], [x[:] for x in mat[i][:lens[i]]]
        k = len(h['arcs'])
        dist = {0: 0}
        for s, dd, l, _ in h['arcs']:
            dist.setdefault(dd, dist.get(s, 0) + 1)
        ids = []
        for (s, dd, l, w), u in zip(h['arcs'], uid[o:o + k]):
            # arcs added for a partial result come from no arc of the graph; uid 0 is also a real arc
            added_arc = c['partial'] and dist.get(s) == lens[i] and (u == 0 or u == -1) and not (u >= offs[j] and u - offs[j] < len(g['arcs']) and
                        g['arcs'][u - offs[j]][2] == -1)
            ids.append(-1 if added_arc else u - offs[j])
        what = (c, 'graph', g, 'frames', fr)
        times, lb = examine(g, fr, h, ids, c, what)
        labels |= set(lb)
        if frn:
            check_eq(getattr(out, frn).tolist()[o:o + k], times, 'frame indexes', c)
        if sf:
            check_eq(getattr(out, sf).tolist()[o:o + k], [sum(lens[:i]) + i + t for t in times], 'sequence frame indexes', c)
        for q in range(k):
            src.append(-1 if ids[q] == -1 else offs[j] + ids[q])
            if ids[q] == -1:
                added += 1
                continue
            ga[offs[j] + ids[q]] += gw[o + q]
            if times[q] < lens[i]:
                gb[i, times[q], g['arcs'][ids[q]][2]] += gw[o + q]
        o += k
    if not added:
        attrs.check_unary(out, vals, c['at'], src, c)
    if c['grad']:
        check(out.scores.requires_grad, 'no gradient', c)
        (out.scores * torch.tensor(gw)).sum().backward()
        if len(uid):
            check_eq(a.grad.tolist(), ga, 'gradient of the graph scores', c)
            check(torch.equal(lp.grad, gb), 'gradient of the network output', lp.grad.tolist(), gb.tolist(), c)
    # one sequence alone
    if N > 1 and T < 20:
        i = r.randrange(N)
        j = 0 if c['shared'] else i
        d1 = k2.DenseFsaVec(lp.detach()[i:i + 1], torch.tensor([[0, 0, lens[i]]], dtype=torch.int32))
        one = k2.intersect_dense_pruned(F.mk_vec([gs[j]]), d1, *args, allow_partial=c['partial'])
        n1, arcs1 = F.rd(one)[0]
        check_eq((n1, sorted(arcs1)), (got[i]['n'], sorted(got[i]['arcs'])), 'sequence', i, 'decoded alone', c)
        labels.add('alone')
    return 'paths' in labels and ('pruned' in labels or len(lens) > 1), sorted(labels) + [f'N{N}']


@st.composite
def online_case(draw):
    c = {k: draw(v) for k, v in common.items()}
    S = draw(st.integers(1, 4))
    B = draw(st.integers(1, S))
    rounds = []
    for _ in range(draw(st.integers(1, 6))):
        who = list(draw(st.permutations(range(S)))[:B])
        rounds.append([who, draw(st.sampled_from([1, 1, 2, 3, 4, 7])), draw(st.lists(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2]), min_size=B, max_size=B))])
    return dict(c, S=S, B=B, rounds=rounds, at=draw(attrs.spec()), empty=0, again=draw(st.integers(0, 3)) == 0)


def run_online(c):
    r = random.Random(c['seed'])
    g = make(r, c, 1)[0]
    a = F.mk_vec([g])
    vals = attrs.attach(a, c['at'])
    a.uid_filler = -1
    it = k2.OnlineDenseIntersecter(a, c['B'], c['sb'], c['ob'], c['mina'], c['maxa'], allow_partial=c['partial'])
    check_eq(it.num_streams, c['B'], 'num_streams', c)
    hist = [[] for _ in range(c['S'])]
    states = [None] * c['S']
    done = set()
    chunks, labels, regroup = 0, set(), set()
    for who, L, cuts in c['rounds']:
        if any(w in done for w in who):
            # a finished stream is replaced by a new one
            for w in who:
                if w in done:
                    states[w], hist[w] = None, []
                    done.discard(w)
        lens = [max(1, L - x) for x in cuts]
        L = max(lens)
        mat = matrix(r, c, c['B'], L)
        d = k2.DenseFsaVec(torch.tensor(mat, dtype=torch.float32), torch.tensor([[i, 0, x] for i, x in enumerate(lens)], dtype=torch.int32))
        lat, new = it.decode(d, [states[w] for w in who])
        check_eq(len(new), c['B'], 'states returned', c)
        got = [{'n': x[0], 'arcs': x[1]} for x in F.rd(lat)]
        check_eq(len(got), c['B'], 'lattices', c)
        uid, o = lat.uid.tolist(), 0
        regroup.add(tuple(who))
        for i, w in enumerate(who):
            states[w] = new[i]
            hist[w] = hist[w] + mat[i][:lens[i]]
            if lens[i] < L:
                done.add(w)
            h = got[i]
            k = len(h['arcs'])
            what = (c, 'stream', w, 'graph', g, 'frames', hist[w])
            _, lb = examine(g, hist[w], h, uid[o:o + k], c, what, online=True)
            labels |= set(lb)
            o += k
            if len(hist[w]) > lens[i]:
                chunks += 1
        if -1 not in uid:
            attrs.check_unary(lat, vals, c['at'], uid, c)
    if len(regroup) > 1:
        labels.add('regrouped')
    return chunks > 0 and 'paths' in labels, sorted(labels) + [f'S{c["S"]}B{c["B"]}']


SUBS = [Sub('batch', batch_case, run_batch, 1500), Sub('long', lambda: batch_case(long=True), run_batch, 250), Sub('online', online_case, run_online, 900),
        Sub('big', lambda: D01.big_case(True), lambda c: D01.run_big(c, True), 100)]
