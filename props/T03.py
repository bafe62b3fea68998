"""T03: frame-by-frame RNN-T beam search against a reference beam search per stream."""
import random

import numpy as np
import torch
import k2
from hypothesis import strategies as st

from vlib import dense, fsa as F
from vlib.core import Sub, check, check_eq, raises

TECHNIQUE = 'random decoding histories (graphs, limits, groupings, regroupings) against a reference search run on each stream alone'
NOTE = ('At most one symbol per frame. The last frame of a lattice only says which states may end there (arcs of score 0): its log-probs are not part '
        'of the lattice scores, and neither is the score of the final arc of the graph. Parallel arcs into the final state are not counted. '
        'Cases where a limit cuts between equal scores are skipped. Graph labels are below the vocabulary size.')
RULE = ('histories: several groups of frames, each with its own subset and order of the streams and its own beam and limits, lattices taken after every group '
        'for any number of frames, attributes that differ between the graphs. gradients: lattice scores back to the supplied log-probs. long: up to 200 frames or 70 streams. numbers: vocabularies and histories with more than 2^31 contexts. '
        'Non-trivial: at least two streams decoded together, and either something was pruned or streams were regrouped.')

NEG = float('-inf')


def f32(x):
    return float(np.float32(x))


class Sim:
    """Reference search for one stream."""

    def __init__(self, g, vocab, hist):
        self.g, self.V, self.H = g, vocab, hist
        self.n = g['n']
        self.out = [[] for _ in range(self.n)]
        for i, a in enumerate(g['arcs']):
            self.out[a[0]].append((i, a[1], a[2], f32(F.f8(a[3]))))
        self.states = {((0,) * hist, 0): 0.0}
        self.frames = []            # kept arcs: (src, dest, uid, label, score)
        self.layers = [set(self.states)]
        self.pruned = False
        self.tie = False

    def contexts(self):
        return {c for c, _ in self.states}

    def cut(self, scores, beam, limit):
        if not scores:
            return set()
        best = max(scores.values())
        order = sorted(scores.values(), reverse=True)
        keep = {k for k, v in scores.items() if v >= best - beam}
        if any(abs(v - (best - beam)) < 1e-6 for v in order):
            self.tie = True
        if 0 < limit < len(order):
            if order[limit - 1] - order[limit] < 1e-6 and order[limit] >= best - beam - 1e-6:
                self.tie = True
            keep &= {k for k, v in scores.items() if v >= order[limit - 1]}
        if len(keep) < len(scores):
            self.pruned = True
        return keep

    def advance(self, lp, beam, max_states, max_contexts):
        """lp(context) -> list of log-probs."""
        top = max(self.states.values(), default=NEG)
        arcs = []
        for (c, s), v in self.states.items():
            if s == self.n - 1:
                continue
            p = lp(c)
            arcs.append(((c, s), (c, s), -1, 0, p[0], v + p[0]))
            for i, d, l, w in self.out[s]:
                q = 0.0 if l == -1 else p[l]
                if l != 0:
                    if abs(v + w + q - (top - beam)) < 1e-6:
                        self.tie = True
                    if v + w + q < top - beam:
                        self.pruned = True
                        continue
                q = p[0] if l == -1 else p[l]
                nc = c if l <= 0 else (c + (l,))[1:]
                arcs.append(((c, s), (nc, d), i, l, f32(w + q), v + w + q))
        best = {}
        for _, d, _, _, _, v in arcs:
            best[d] = max(best.get(d, NEG), v)
        keep = self.cut(best, beam, max_states)
        ctx = {}
        for d in keep:
            ctx[d[0]] = max(ctx.get(d[0], NEG), best[d])
        kc = self.cut(ctx, beam, max_contexts)
        self.states = {d: best[d] for d in keep if d[0] in kc}
        self.frames.append([a for a in arcs if a[1] in self.states])
        self.layers.append(set(self.states))

    def lattice(self, T, partial):
        """Arcs {((t, state), uid): (label, score, (t+1, dest))} and the set of ending states."""
        arcs = {}
        for t in range(T - 1):
            for s, d, u, l, w, _ in self.frames[t]:
                arcs[(t, s), u] = (max(l, 0), w, (t + 1, d))
        last = self.frames[T - 1]
        ends = {a[0] for a in last if a[3] == -1}
        if partial and not ends:
            ends = {a[0] for a in last}
        return arcs, ends, sum(len(x) for x in self.layers[:T])


@st.composite
def case(draw, grad=False, big=False):
    if big:
        c = draw(case())
        V, H = draw(st.sampled_from([(3000, 4), (1300, 3), (200, 4), (50, 6), (12, 9), (47000, 2)]))
        for g in c['groups']:
            g['mc'] = min(g['mc'] or 4, 4)
            g['ms'] = min(g['ms'] or 8, 8)
        return dict(c, V=V, H=H, topo=False, big=True)
    S = draw(st.integers(1, 4))
    groups = []
    for _ in range(1 if grad else draw(st.integers(1, 4))):
        who = list(range(S)) if grad else draw(st.permutations(range(S)))[:draw(st.integers(1, S))]
        groups.append(dict(who=list(who), frames=draw(st.integers(1, 5 if grad else 4)), beam=draw(st.sampled_from([1000.0, 1000.0, 20.0, 8.0, 3.0, 1.0])),
                           ms=draw(st.sampled_from([0, 1000, 1000, 8, 3, 1])), mc=draw(st.sampled_from([0, 1000, 1000, 4, 2, 1]))))
    return dict(S=S, V=draw(st.integers(2, 5)), H=draw(st.sampled_from([1, 1, 2, 2, 3])), groups=groups, seed=draw(st.integers(0, 10**6)),
                shared=draw(st.integers(0, 3)) == 0, zero=draw(st.integers(0, 4)) == 0, topo=draw(st.integers(0, 4)) == 0,
                partial=draw(st.booleans()), lay=draw(st.sampled_from(['c', 'c', 'r', 'd'])), full=draw(st.booleans()))


@st.composite
def long_case(draw):
    c = draw(case())
    S = draw(st.sampled_from([2, 6, 20, 70]))
    groups = []
    for _ in range(draw(st.integers(1, 8 if S <= 6 else 2))):
        who = draw(st.permutations(range(S)))[:draw(st.integers(S // 2, S))] if S <= 20 else list(range(S))
        groups.append(dict(who=list(who), frames=draw(st.integers(1, 25 if S <= 6 else 6)), beam=draw(st.sampled_from([20.0, 8.0, 3.0])),
                           ms=draw(st.sampled_from([30, 8, 3, 1])), mc=draw(st.sampled_from([1000, 8, 4, 2, 1]))))
    return dict(c, S=S, groups=groups, V=draw(st.sampled_from([3, 5, 20])))


def make_graphs(c, r):
    out = []
    for i in range(c['S']):
        if c['shared'] and out:
            out.append(out[0])
            continue
        g = dense.graph(r, c['V'], final=0.8, m=r.randint(0, 5), n=r.randint(2, 4))
        if c['topo'] and r.random() < 0.7:
            arcs = [[0, 0, l, 0] for l in range(c['V'])] + [[0, 1, -1, 0]]
            arcs.sort(key=lambda a: (a[0], a[2] & 0xffffffff))
            g = {'n': 2, 'arcs': arcs}
        if c.get('big'):
            ends = [0, 1, c['V'] - 1, c['V'] - 2, c['V'] // 2]
            for a in g['arcs']:
                if a[2] > 0 and r.random() < 0.8:
                    a[2] = r.choice(ends)
            g['arcs'].sort(key=lambda a: (a[0], a[2] & 0xffffffff, a[1]))
        for a in g['arcs']:
            a[3] = 0.0 if c['zero'] else 8 * f32(r.uniform(-4, 2))
        out.append(g)
    return out


KINDS = {'fa': torch.float32, 'ia': torch.int32, 'da': torch.float64, 'la': torch.int64}


def make_streams(c, r, graphs):
    fill = {k: r.choice([None, 5, -3]) for k in KINDS}
    fsas, info = [], []
    for i, g in enumerate(graphs):
        if c['shared'] and i:
            fsas.append(fsas[0])
            info.append(info[0])
            continue
        f = F.mk(g)
        m = len(g['arcs'])
        f.uid = torch.arange(m, dtype=torch.int32)
        f.uid_filler = -1
        at = {}
        for k in r.sample(sorted(KINDS), r.randint(0, 3)):
            v = [r.randint(1, 99) for _ in range(m)]
            setattr(f, k, torch.tensor(v, dtype=KINDS[k]))
            if fill[k] is not None:
                setattr(f, k + '_filler', fill[k])
            at[k] = v
        if r.random() < 0.4:
            v = [[r.randint(1, 9) for _ in range(r.randint(0, 2))] for _ in range(m)]
            f.ra = k2.RaggedTensor(v, dtype=torch.int32) if any(v) else k2.RaggedTensor('[ ' + '[ ] ' * m + ']', dtype=torch.int32)
            at['ra'] = v
        if r.random() < 0.3:
            setattr(f, f'obj{i}', at.setdefault('obj', f'o{i}'))
        fsas.append(f)
        info.append(at)
    return fsas, info, fill


def lookup(c):
    tab = {}

    def lp(i, t, ctx):
        key = (i, t, ctx)
        if key not in tab:
            q = random.Random(f"{c['seed']}/{i}/{t}/{ctx}")
            if c.get('big'):
                tab[key] = np.random.RandomState(q.randrange(2**32)).uniform(-6, 0, c['V']).astype('float32').astype('float64').tolist()
                return tab[key]
            tab[key] = [f32(q.uniform(-6, 0)) for _ in range(c['V'])]
        return tab[key]
    return lp


def layout(x, lay):
    if lay == 'r':
        return torch.cat([x, x + 1], dim=1)[:, :x.shape[1]]
    if lay == 'd':
        return x.double()
    return x


def check_lattice(lat, part, uid, base, sim, T, partial, what):
    """Returns [(arc position, kind, key)] for the arcs, in order."""
    n, arcs = part
    want, ends, states = sim.lattice(T, partial)
    ident = {0: (0, ((0,) * sim.H, 0))}
    seen, ended, keys = {}, set(), []
    for k, (s, d, l, w) in enumerate(arcs):
        check(s in ident, 'state', s, 'is left before it is entered', arcs, *what)
        t, (ctx, gs) = ident[s]
        u = uid[base + k]
        if d == n - 1:
            check(t == T - 1 and l == -1 and w == 0 and u == -1, 'arc into the final state', (s, d, l, w, u), 'frame', t, *what)
            check((ctx, gs) in ends, 'state', (ctx, gs), 'must not end', *what)
            ended.add((ctx, gs))
            keys.append(None)
            continue
        check(s < d, 'not top-sorted', *what)
        key = ((t, (ctx, gs)), u)
        check(key in want and key not in seen, 'unexpected arc', key, (s, d, l, w), 'expected', want, *what)
        wl, ww, wd = want[key]
        check_eq(l, wl, 'label', key, *what)
        check_eq(w, ww, 'score', key, *what)
        check(ident.setdefault(d, wd) == wd, 'state', d, 'is', ident[d], 'and', wd, *what)
        seen[key] = True
        keys.append(key)
    check_eq(len(seen), len(want), 'missing arcs', set(want) - set(seen), *what)
    check_eq(ended, ends, 'states that may end', *what)
    check_eq(len(set(ident.values())), len(ident), 'a state twice', *what)
    check_eq(n, states + 1, 'number of states', *what)
    return keys


def run(c, grad=False):
    r = random.Random(c['seed'])
    graphs = make_graphs(c, r)
    fsas, info, fill = make_streams(c, r, graphs)
    sims = [Sim(g, c['V'], c['H']) for g in graphs]
    streams = [k2.RnntDecodingStream(f) for f in fsas]
    lp = lookup(c)
    moved = 0
    for g in c['groups']:
        who = g['who']
        cfg = k2.RnntDecodingConfig(c['V'], c['H'], g['beam'], g['ms'], g['mc'])
        S = k2.RnntDecodingStreams([streams[i] for i in who], cfg)
        check_eq(S.num_streams, len(who), 'num_streams', c)
        rows, t2s, s2c, where = [], [0], [0], {}
        raises(lambda: S.format_output([1] * len(who)), 'lattice before terminating', c)
        for _ in range(g['frames']):
            shape, ctx = S.get_contexts()
            sp = shape.row_splits(1).tolist()
            ctx = [tuple(x) for x in ctx.tolist()]
            check_eq(len(sp), len(who) + 1, 'streams', c)
            check_eq(sp[-1], len(ctx), 'contexts', c)
            lps = []
            for j, i in enumerate(who):
                mine = ctx[sp[j]:sp[j + 1]]
                check_eq(len(set(mine)), len(mine), 'a context twice', c)
                check_eq(set(mine), sims[i].contexts(), 'contexts of stream', i, 'frame', len(sims[i].frames), c)
                for q in mine:
                    where[i, len(sims[i].frames), q] = s2c[-1] + len(lps)
                    lps.append(lp(i, len(sims[i].frames), q))
            x = torch.tensor(lps, dtype=torch.float32).reshape(-1, c['V'])
            rows.append(x)
            keep = x.clone()
            S.advance(layout(x, c['lay']))
            check(torch.equal(x, keep), 'log-probs changed', c)
            t2s.append(t2s[-1] + len(who))
            s2c += [s2c[-1] + v for v in sp[1:]]
            for i in who:
                t = len(sims[i].frames)
                sims[i].advance(lambda q: lp(i, t, q), g['beam'], g['ms'], g['mc'])
            if any(s.tie for s in sims):
                return False, ['tie']
        S.terminate_and_flush_to_streams()
        raises(lambda: S.advance(rows[-1]), 'advance after terminating', c)
        q = random.Random(c['seed'] + moved)
        for again in range(2):
            nf = [len(sims[i].frames) if c['full'] and not again else q.randint(1, len(sims[i].frames)) for i in who]
            kw = {}
            if grad:
                leaf = torch.cat(rows).requires_grad_(True)
                kw = dict(log_probs=leaf, t2s2c_shape=k2.ragged.create_ragged_shape2(row_splits=torch.tensor(t2s, dtype=torch.int32)).compose(
                    k2.ragged.create_ragged_shape2(row_splits=torch.tensor(s2c, dtype=torch.int32))))
            lat = S.format_output(nf, allow_partial=c['partial'], **kw)
            parts = F.rd(lat)
            check_eq(len(parts), len(who), 'lattices', c)
            uid = lat.uid.tolist()
            base = 0
            w = [q.randint(-8, 8) / 4 for _ in uid]
            want = torch.zeros(len(ctx) if False else s2c[-1], c['V'])
            for j, i in enumerate(who):
                if grad:
                    # scores are log-prob plus what is left: equal up to rounding
                    n, arcs = parts[j]
                    ref, _, _ = sims[i].lattice(nf[j], c['partial'])
                    by = {}
                    for (s, u), (l, v, d) in ref.items():
                        by.setdefault((u, l), []).append(v)
                    fixed = []
                    for k, (s, d, l, v) in enumerate(arcs):
                        m = [x for x in by.get((uid[base + k], l), []) if abs(x - v) < 1e-4]
                        fixed.append((s, d, l, m[0] if len(m) == 1 else min(m, key=lambda x: abs(x - v)) if m else v))
                    parts[j] = (n, fixed)
                keys = check_lattice(lat, parts[j], uid, base, sims[i], nf[j], c['partial'], (c, 'stream', i, 'frames', nf[j], 'graph', graphs[i]))
                us = uid[base:base + len(keys)]
                for name, dt in KINDS.items():
                    have = [x for x in who if name in info[x]]
                    if have:
                        v = getattr(lat, name)
                        check_eq(v.dtype, dt, 'dtype of', name, c)
                        fl = fill[name] or 0
                        vals = info[i].get(name)
                        check_eq(v.tolist()[base:base + len(keys)], [fl if u < 0 or vals is None else vals[u] for u in us], 'attribute', name, 'stream', i, c)
                    else:
                        check(not hasattr(lat, name), 'unexpected attribute', name, c)
                if any('ra' in info[x] for x in who):
                    vals = info[i].get('ra')
                    check_eq(lat.ra.tolist()[base:base + len(keys)], [[] if u < 0 or vals is None else vals[u] for u in us], 'ragged attribute, stream', i, c)
                if 'obj' in info[i]:
                    check_eq(getattr(lat, info[i]['obj'].replace('o', 'obj')), info[i]['obj'], 'object attribute', c)
                if grad:
                    for k, key in enumerate(keys):
                        if key is not None:
                            (t, (ctxt, _)), u = key
                            want[where[i, t, ctxt], parts[j][1][k][2]] += w[base + k]
                base += len(keys)
            check_eq(base, len(uid), 'arcs', c)
            if grad and uid:
                (lat.scores * torch.tensor(w)).sum().backward()
                check(torch.equal(leaf.grad, want), 'gradient', leaf.grad.tolist(), want.tolist(), c)
        moved += 1
    pruned = any(s.pruned for s in sims)
    return max(len(g['who']) for g in c['groups']) > 1 and (pruned or moved > 1), [f'groups{moved}', 'pruned' if pruned else 'all', c['lay'], 'partial' if c['partial'] else 'final', f'H{c["H"]}']


def run_grad(c):
    return run(c, True)


SUBS = [
    Sub('long', long_case, run, 400),
    Sub('histories', case, run, 4800),
    Sub('gradients', lambda: case(True), run_grad, 2400),
    Sub('numbers', lambda: case(big=True), run, 800),
]
