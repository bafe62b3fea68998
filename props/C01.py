"""C01: CTC topologies, CTC graphs, trivial graphs, the CTC loss and one-best decoding."""
import itertools
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F
from vlib.core import Sub, check, check_eq, check_close, check_all_close

TECHNIQUE = 'generated transcripts, topologies and score matrices against the definition of CTC (segmentations counted one by one) and a float64 alignment sum'
NOTE = ('Labels of a transcript are positive. Modified topology: equal neighbours need no blank between them, so a run of n frames may stand for 1..n tokens. '
        'A transcript that does not fit in its frames has an infinite loss (no gradient is checked then). The output beam is wide unless said otherwise; '
        'a narrow beam (which is applied before the delay penalty) may only raise the loss, without penalty at most to that of the best alignment.')
RULE = ('topo, graph: the number of paths of every frame-label sequence up to 4 frames, and of random longer ones, with every output. '
        'loss: CTC graphs, compositions of topology and transcript, several pronunciations, ragged lengths, reductions, delay penalties, gradients, also against '
        'torch.nn.CTCLoss. decode: get_lattice, one_best_decoding and get_aux_labels against the best path of a trellis. longloss, torchloss: up to 300 frames, 400 tokens, 70 utterances. greedy: the topology alone, up to 400 frames. '
        'Non-trivial: more than one token (topo, graph), more than one alignment (loss) or output (decode).')

NEG = float('-inf')


def ways(x, y, modified):
    """Number of ways to read frames x as tokens y."""
    memo = {}

    def f(i, j):
        if (i, j) in memo:
            return memo[i, j]
        v = int(i == len(x) and j == len(y))
        if i < len(x):
            if x[i] == 0:
                v += f(i + 1, j)
            elif j < len(y):
                k = i
                while k < len(x) and x[k] == y[j]:
                    k += 1
                    if modified or k == len(x) or x[k] != y[j]:
                        v += f(k, j + 1)
        memo[i, j] = v
        return v
    return f(0, 0)


def readings(x, modified):
    """{tokens: number of ways} of the frames x."""
    out = {(): 1}
    i = 0
    for lab, run in itertools.groupby(x):
        n = len(list(run))
        if lab == 0:
            continue
        new = {}
        for y, c in out.items():
            for m in range(1, n + 1 if modified else 2):
                num = 1
                if modified:
                    for q in range(m - 1):
                        num = num * (n - 1 - q) // (q + 1)
                z = y + (lab,) * m
                new[z] = new.get(z, 0) + c * num
        out = new
    return out


def outputs(n, arcs, aux, x):
    """{outputs: number of paths} of an FST for the input x."""
    cur = {(0, ()): 1} if n else {}
    for l in list(x) + [-1]:
        nxt = {}
        for (s, y), c in cur.items():
            for (a, d, lab, w), o in zip(arcs, aux):
                if a == s and lab == l:
                    check(w == 0, 'score', w, 'of an arc')
                    if l == -1:
                        check(o == -1, 'output', o, 'of a final arc')
                    z = y + ((o,) if o > 0 else ())
                    nxt[d, z] = nxt.get((d, z), 0) + c
        cur = nxt
    return {y: c for (s, y), c in cur.items() if s == n - 1}


@st.composite
def topo_case(draw):
    return dict(m=draw(st.integers(0, 4)), mod=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), device=draw(st.sampled_from([None, 'cpu'])),
                trivial=draw(st.integers(0, 3)) == 0)


def sequences(r, labels, full, extra, longest):
    for L in range(full + 1):
        yield from itertools.product(labels, repeat=L)
    for _ in range(extra):
        x = []
        while len(x) < longest:
            x += [r.choice(labels)] * r.choice([1, 1, 1, 2, 3])
        yield tuple(x[:r.randint(full + 1, longest)])


def run_topo(c):
    r = random.Random(c['seed'])
    m = c['m']
    if c['trivial']:
        t = k2.trivial_graph(m, c['device'])
        n, arcs = F.rd(t)[0]
        aux = t.aux_labels.tolist()
        for x in sequences(r, range(m + 2), 3 if m < 4 else 2, 5, 8):
            want = {tuple(x): 1} if all(1 <= v <= m for v in x) else {}
            check_eq(outputs(n, arcs, aux, x), want, 'trivial graph with input', x, c)
        check(t.properties & k2.fsa_properties.VALID, 'not valid', c)
        return m > 1, ['trivial']
    t = k2.ctc_topo(m, c['mod'], c['device'])
    check_eq(len(t.shape), 2, 'axes', c)
    check(t.properties & k2.fsa_properties.VALID, 'not valid', c)
    n, arcs = F.rd(t)[0]
    aux = t.aux_labels.tolist()
    check(all(-1 <= v <= m for v in aux), 'output labels', aux, c)
    for x in sequences(r, range(m + 2), [5, 5, 4, 3, 3][m], 12, 9):
        want = readings(x, c['mod']) if all(v <= m for v in x) else {}
        check_eq(outputs(n, arcs, aux, x), want, 'topology with input', x, c)
    return m > 1, [f'm{m}', 'modified' if c['mod'] else 'standard']


def transcripts(draw, lo=1, hi=4, longest=5):
    V = draw(st.integers(1, 5))
    return draw(st.lists(st.lists(st.integers(1, V), max_size=longest), min_size=lo, max_size=hi)), V


@st.composite
def graph_case(draw):
    ys, V = transcripts(draw, 0, 5, 4)
    return dict(ys=ys, V=V, mod=draw(st.booleans()), form=draw(st.sampled_from(['list', 'ragged', 'compose', 'compose'])), seed=draw(st.integers(0, 10**6)))


def composed(ys, V, mod):
    return k2.arc_sort(k2.connect(k2.compose(k2.ctc_topo(V, mod), k2.linear_fsa(ys))))


def ragged(ys):
    flat = torch.tensor([v for y in ys for v in y], dtype=torch.int32)
    rs, n = [0], 0
    for y in ys:
        n += len(y)
        rs.append(n)
    return k2.RaggedTensor(k2.ragged.create_ragged_shape2(row_splits=torch.tensor(rs, dtype=torch.int32), cached_tot_size=n), flat)


def run_graph(c):
    r = random.Random(c['seed'])
    ys, mod = c['ys'], c['mod']
    if c['form'] == 'list' and any(ys):
        g = k2.ctc_graph(ys, mod)
    elif c['form'] == 'compose' and ys:
        g = composed(ys, c['V'], mod)
    else:
        g = k2.ctc_graph(ragged(ys), mod)
    check_eq(g.shape[0], len(ys), 'graphs', c)
    check(g.properties & k2.fsa_properties.VALID or not ys, 'not valid', c)
    o, aux = 0, g.aux_labels.tolist()
    check(g.aux_labels.dtype == torch.int32, 'type of aux_labels', c)
    for (n, arcs), y in zip(F.rd(g), ys):
        a = aux[o:o + len(arcs)]
        o += len(arcs)
        labels = sorted({0, r.choice([1, 6]), *y})
        full = {1: 5, 2: 5, 3: 4, 4: 3, 5: 3, 6: 2}[len(labels)]
        todo = list(sequences(r, labels, full, 6, 9))
        for _ in range(6):          # inputs that do match
            x = []
            for i, v in enumerate(y):
                x += [0] * r.choice([0, 0, 1, 2]) + ([0] if i and y[i - 1] == v and not x[-1:] == [0] and r.random() < 0.8 else []) + [v] * r.choice([1, 1, 2, 3])
            todo.append(tuple(x + [0] * r.randint(0, 1)))
        for x in todo:
            w = ways(x, y, mod)
            check_eq(outputs(n, arcs, a, x), {tuple(y): w} if w else {}, 'graph of', y, 'with input', x, c)
    return any(len(y) > 1 for y in ys), [c['form'], 'modified' if mod else 'standard'] + (['repeats'] if any(a == b for y in ys for a, b in zip(y, y[1:])) else []) + \
        (['empty'] if [] in ys else [])


@st.composite
def loss_case(draw):
    ys, V = transcripts(draw, 1, 4, 5)
    N = len(ys)
    lens = [draw(st.integers(1, 10)) if draw(st.integers(0, 3)) == 0 else min(14, 2 * len(y) + draw(st.integers(1, 4))) for y in ys]
    return dict(ys=ys, V=V, C=V + 1 + draw(st.integers(0, 2)), lens=lens, mod=draw(st.booleans()), kind=draw(st.sampled_from(['graph', 'graph', 'compose', 'lexicon'])),
                red=draw(st.sampled_from(['none', 'sum', 'mean'])), double=draw(st.integers(0, 2)) > 0, dp=draw(st.sampled_from([0.0, 0.0, 0.125, 0.5, 2.0])),
                beam=draw(st.sampled_from([1000.0, 1000.0, 1000.0, 1.0, 4.0])), norm=draw(st.booleans()), cls=draw(st.booleans()), mark=draw(st.integers(0, 4)) == 0,
                seed=draw(st.integers(0, 10**6)))


def alignment_sum(lp, y, mod, dp, best=False):
    """log of the sum over all alignments (torch, float64)."""
    T, n = len(lp), len(y)
    S = 2 * n + 1
    lab = [0 if s % 2 == 0 else y[s // 2] for s in range(S)]
    ninf = torch.tensor(NEG, dtype=torch.float64)

    def cost(t, s):
        return -dp * (t - (T >> 1)) if s % 2 else 0.0
    alpha = [lp[0][lab[s]] + cost(0, s) if s < 2 else ninf for s in range(S)]
    for t in range(1, T):
        new = []
        for s in range(S):
            terms = []
            if alpha[s] > NEG:
                terms.append(alpha[s])
            if s and alpha[s - 1] > NEG:
                terms.append(alpha[s - 1] + cost(t, s))
            if s > 1 and s % 2 and (mod or lab[s] != lab[s - 2]) and alpha[s - 2] > NEG:
                terms.append(alpha[s - 2] + cost(t, s))
            if not terms:
                new.append(ninf)
            else:
                q = torch.stack(terms)
                new.append(lp[t][lab[s]] + (q.max() if best else torch.logsumexp(q, 0)))
        alpha = new
    ends = [a for a in alpha[-2:] if a > NEG]
    if not ends:
        return ninf
    q = torch.stack(ends)
    return q.max() if best else torch.logsumexp(q, 0)


def run_loss(c):
    r = random.Random(c['seed'])
    order = sorted(range(len(c['ys'])), key=lambda i: -c['lens'][i])
    ys, lens = [c['ys'][i] for i in order], [c['lens'][i] for i in order]
    N, T, C, mod, dp = len(ys), max(lens), c['C'], c['mod'], c['dp']
    alts = [[y] for y in ys]
    if c['kind'] == 'lexicon':
        # other pronunciations of the same transcript
        alts = [[y] + [[r.randint(1, c['V']) for _ in range(max(0, len(y) + r.randint(-1, 1)))] for _ in range(r.randint(0, 2))] for y in ys]
        gs = []
        for a in alts:
            arcs, n = [], 1
            for p in a:
                s = 0
                for v in p:
                    arcs.append([s, n, v, 0])
                    s, n = n, n + 1
                arcs.append([s, -1, -1, 0])
            gs.append({'n': n + 1, 'arcs': sorted([[s, n if d == -1 else d, v, w] for s, d, v, w in arcs], key=lambda x: (x[0], x[2] & 0xffffffff))})
        g = k2.arc_sort(k2.connect(k2.compose(k2.ctc_topo(c['V'], mod), F.mk_vec(gs))))
    elif c['kind'] == 'compose':
        g = composed(ys, c['V'], mod)
    else:
        g = k2.ctc_graph(ragged(ys), mod)
    if c['mark'] and c['kind'] == 'graph':
        # phone-based marking of repeated tokens instead of aux_labels
        g._is_repeat_token_ = (g.aux_labels == 0) & (g.labels > 0)
        del g.aux_labels
    base = torch.tensor([[[r.uniform(-4, 2) for _ in range(C)] for _ in range(T)] for _ in range(N)], dtype=torch.float32)
    if c['norm']:
        base = base.log_softmax(-1)
    x = base.clone().requires_grad_(True)
    d = k2.DenseFsaVec(x, torch.tensor([[i, 0, n] for i, n in enumerate(lens)], dtype=torch.int32))
    tl = torch.tensor([len(y) for y in ys])
    kw = dict(delay_penalty=dp)
    if c['red'] == 'mean':
        kw['target_lengths'] = tl
    if c['cls']:
        got = k2.CtcLoss(c['beam'], reduction=c['red'], use_double_scores=c['double'])(g, d, **kw)
    else:
        got = k2.ctc_loss(g, d, output_beam=c['beam'], reduction=c['red'], use_double_scores=c['double'], **kw)
    check(got.dtype == torch.float32, 'type', got.dtype, c)
    check_eq(got.ndim, 1 if c['red'] == 'none' else 0, 'axes of the loss', c)
    z = base.double().requires_grad_(True)

    def reference(best):
        out = []
        for i in range(N):
            parts = [v for v in (alignment_sum(z[i][:lens[i]], p, mod, dp, best) for p in alts[i]) if v > NEG]
            out.append(-(torch.stack(parts).max() if best else torch.logsumexp(torch.stack(parts), 0)) if parts else torch.tensor(float('inf'), dtype=torch.float64))
        return torch.stack(out)
    ref = reference(False)

    def reduce(v):
        return v if c['red'] == 'none' else v.sum() if c['red'] == 'sum' else (v / tl.clamp(min=1)).mean()
    tol = dict(rtol=2e-4, atol=1e-3)
    labels = [c['kind'], c['red'], 'modified' if mod else 'standard'] + (['delay'] if dp else []) + (['infinite'] if torch.isinf(ref).any() else [])
    if c['beam'] < 1000:
        lo, hi = reduce(ref).detach(), reduce(reference(True)).detach()
        for a, l, h in zip(got.detach().reshape(-1).tolist(), lo.reshape(-1).tolist(), hi.reshape(-1).tolist()):
            check(a == l or l - 1e-3 - 2e-4 * abs(l) <= a and (dp or a <= h + 1e-3 + 2e-4 * abs(h)), 'loss', a, 'not between', l, 'and', h, c)
        return True, labels + ['beam']
    check_all_close(got.detach().reshape(-1).tolist(), reduce(ref).detach().reshape(-1).tolist(), 'loss', c, **tol)
    if not mod and not dp and c['norm'] and c['kind'] != 'lexicon':
        t = torch.nn.functional.ctc_loss(base.double().transpose(0, 1), torch.tensor([v for y in ys for v in y], dtype=torch.int64), torch.tensor(lens), tl, reduction=c['red'])
        check_all_close(got.detach().reshape(-1).tolist(), t.reshape(-1).tolist(), 'torch.nn.CTCLoss', c, **tol)
        labels.append('torch')
    if not torch.isinf(ref).any():
        w = torch.tensor([r.randint(1, 8) / 4 for _ in range(got.numel())]).reshape(got.shape)
        (got * w).sum().backward()
        (reduce(ref) * w).sum().backward()
        check_all_close(x.grad.reshape(-1).tolist(), z.grad.reshape(-1).tolist(), 'gradient', c, rtol=1e-3, atol=1e-3)
        labels.append('gradient')
    return any(n > len(y) > 0 for y, n in zip(ys, lens)), labels


@st.composite
def decode_case(draw):
    V = draw(st.integers(1, 4))
    N = draw(st.integers(1, 4))
    f = draw(st.sampled_from([1, 1, 2, 4]))
    T = draw(st.integers(1, 6))
    return dict(V=V, f=f, T=T, lens=[draw(st.integers(1, T + f - 1)) for _ in range(N)], kind=draw(st.sampled_from(['topo', 'modified', 'graph', 'ragged', 'words'])),
                n=draw(st.integers(2, 5)), wide=draw(st.booleans()), double=draw(st.booleans()), ldt=draw(st.sampled_from(['int32', 'int64', 'float32'])), seed=draw(st.integers(0, 10**6)))


def decode_graph(c, r):
    V, kind = c['V'], c['kind']
    if kind in ('topo', 'modified'):
        return k2.ctc_topo(V, kind == 'modified')
    n = c['n']
    arcs = []
    if kind == 'words':
        # any sequence of tokens, read as words
        for _ in range(r.randint(2, 5)):
            arcs.append([r.randrange(n - 1), r.randrange(n - 1), r.randint(1, V), r.randint(-16, 16) / 8])
        arcs.append([r.randrange(n - 1), n - 1, -1, r.randint(-16, 16) / 8])
    else:
        for s in range(n - 1):
            for _ in range(r.randint(1, 4)):
                arcs.append([s, r.randrange(n - 1), r.randint(0, V), r.randint(-16, 16) / 8])
            if r.random() < 0.6 or s == n - 2:
                arcs.append([s, n - 1, -1, r.randint(-16, 16) / 8])
    arcs.sort(key=lambda a: (a[0], a[2] & 0xffffffff))
    g = F.mk({'n': n, 'arcs': arcs})
    if kind == 'ragged':
        g.aux_labels = k2.RaggedTensor([[-1] if a[2] == -1 else [r.randint(0, 5) for _ in range(r.choice([0, 1, 1, 2]))] for a in arcs], dtype=torch.int32)
    else:
        g.aux_labels = torch.tensor([-1 if a[2] == -1 else r.randint(0, 5) for a in arcs], dtype=torch.int32)
    if kind == 'words':
        g = k2.arc_sort(k2.connect(k2.compose(k2.ctc_topo(V), k2.arc_sort(g))))
    return g


def run_decode(c):
    r = random.Random(c['seed'])
    V, T, lens = c['V'], c['T'], c['lens']
    g = decode_graph(c, r)
    if g.num_arcs == 0:
        return False, ['no graph']
    lp = torch.tensor([[[r.uniform(-4, 2) for _ in range(V + 1)] for _ in range(T)] for _ in lens], dtype=torch.float32)
    before = lp.clone()
    lat = k2.get_lattice(lp, torch.tensor(lens, dtype=getattr(torch, c['ldt'])), g, search_beam=1000.0, output_beam=1000.0 if c['wide'] else 1.0, min_active_states=0,
                         max_active_states=10000, subsampling_factor=c['f'])
    check(torch.equal(before, lp), 'log_prob changed', c)
    check_eq(tuple(lat.shape[:1]), (len(lens),), 'lattices', c)
    best = k2.one_best_decoding(lat, use_double_scores=c['double'])
    got = k2.get_aux_labels(best)
    check_eq(len(got), len(lens), 'results', c)
    tot = best.get_tot_scores(use_double_scores=True, log_semiring=False).tolist()
    n, arcs = F.rd(g)[0]
    aux = g.aux_labels.tolist()
    aux = [[v for v in (u if isinstance(u, list) else [u]) if v > 0] for u in aux]
    labels = set()
    for i, L in enumerate(lens):
        L = min(L, T)
        cur = {(0, ()): 0.0}
        for t in range(L + 1):
            new = {}
            for (s, y), v in cur.items():
                for (a, d, lab, w), o in zip(arcs, aux):
                    if a != s or (lab == -1) != (t == L):
                        continue
                    k = d, y + tuple(o)
                    u = v + w + (float(lp[i][t][lab]) if t < L else 0.0)
                    if u > new.get(k, NEG):
                        new[k] = u
            cur = new
        ends = {y: v for (s, y), v in cur.items() if s == n - 1}
        if not ends:
            check_eq((got[i], tot[i]), ([], NEG), 'utterance', i, 'that cannot be decoded', c)
            labels.add('nothing')
            continue
        m = max(ends.values())
        check(abs(tot[i] - m) < 1e-3, 'score', tot[i], 'of the best path, not', m, c)
        check(ends.get(tuple(got[i]), NEG) > m - 1e-3, 'utterance', i, 'decoded as', got[i], 'not', max(ends, key=ends.get), c)
        if len(ends) > 1:
            labels.add('alternatives')
        if c['kind'] == 'topo':
            a = lp[i][:L].argmax(-1).tolist()
            check_eq(got[i], [k for k, _ in itertools.groupby(a) if k], 'greedy decoding', c)
    return 'alternatives' in labels, sorted(labels) + [c['kind']] + (['unsorted'] if lens != sorted(lens, reverse=True) else []) + (['truncated'] if max(lens) > T else [])


@st.composite
def longloss_case(draw):
    c = draw(loss_case())
    V = draw(st.sampled_from([1, 2, 10, 200]))
    ys = [draw(st.lists(st.integers(1, V), min_size=5, max_size=20)) for _ in range(draw(st.integers(1, 2)))]
    return dict(c, ys=ys, V=V, C=V + 1, lens=[2 * len(y) + draw(st.integers(0, 30)) for y in ys], kind='graph' if c['kind'] == 'lexicon' or V == 200 else c['kind'],
                dp=draw(st.sampled_from([0.0, 0.125])), beam=10000.0)


@st.composite
def torch_case(draw):
    return dict(N=draw(st.sampled_from([1, 3, 8, 70])), T=draw(st.sampled_from([20, 100, 300])), V=draw(st.sampled_from([3, 50, 400])), seed=draw(st.integers(0, 10**6)),
                red=draw(st.sampled_from(['none', 'sum', 'mean'])), double=draw(st.booleans()), kind=draw(st.sampled_from(['graph', 'graph', 'compose'])))


def run_torch(c):
    """Against torch.nn.functional.ctc_loss, gradients with respect to what goes into the softmax."""
    r = random.Random(c['seed'])
    V = c['V'] if c['kind'] == 'graph' else min(c['V'], 50)
    N, T = (c['N'], c['T']) if c['N'] * c['T'] * V < 10**6 else (3, 100)
    lens = sorted([r.randint(max(2, T // 2), T) for _ in range(N)], reverse=True)
    lens[0] = T
    ys = [[r.randint(1, V) for _ in range(r.randint(0, n // 2))] for n in lens]
    if c['kind'] == 'compose' or not any(ys):
        ys = [y or [1] for y in ys]
    g = composed(ys, V, False) if c['kind'] == 'compose' else k2.ctc_graph(ys)
    t0 = torch.randn((N, T, V + 1), generator=torch.Generator().manual_seed(c['seed']))
    x, z = t0.clone().requires_grad_(True), t0.double().requires_grad_(True)
    tl = torch.tensor([len(y) for y in ys])
    d = k2.DenseFsaVec(x.log_softmax(-1), torch.tensor([[i, 0, n] for i, n in enumerate(lens)], dtype=torch.int32))
    got = k2.ctc_loss(g, d, output_beam=1e5, reduction=c['red'], use_double_scores=c['double'], target_lengths=tl)
    ref = torch.nn.functional.ctc_loss(z.log_softmax(-1).transpose(0, 1), torch.tensor([v for y in ys for v in y], dtype=torch.int64), torch.tensor(lens), tl, reduction=c['red'])
    check_all_close(got.detach().reshape(-1).tolist(), ref.reshape(-1).tolist(), 'loss', c, rtol=2e-4, atol=1e-3)
    if not torch.isinf(ref).any():
        got.sum().backward()
        ref.sum().backward()
        e = (x.grad.double() - z.grad).abs().max().item()
        check(e < (2e-3 if c['double'] else 2e-2), 'gradient differs by', e, c)
    return True, [c['kind'], c['red'], f'T{T}', f'V{V}', 'infinite' if torch.isinf(ref).any() else 'finite']


@st.composite
def greedy_case(draw):
    return dict(N=draw(st.sampled_from([1, 3, 40])), T=draw(st.sampled_from([20, 100, 400])), V=draw(st.sampled_from([2, 30, 150])), seed=draw(st.integers(0, 10**6)),
                double=draw(st.booleans()))


def run_greedy(c):
    """The best path of the CTC topology is the best label of every frame."""
    r = random.Random(c['seed'])
    N, T, V = c['N'], c['T'], c['V']
    if N * T * V > 200000:
        N = 2
    lens = [r.randint(1, T) for _ in range(N)]
    lp = torch.randn((N, T, V + 1), generator=torch.Generator().manual_seed(c['seed'])).log_softmax(-1)
    if r.random() < 0.5:
        lp[..., 0] += r.choice([1.0, 3.0])
    lp.scatter_add_(2, lp.argmax(-1, keepdim=True), torch.full((N, T, 1), 0.05))        # the best label is clearly best
    lat = k2.get_lattice(lp, torch.tensor(lens), k2.ctc_topo(V), search_beam=20.0, output_beam=8.0, min_active_states=30, max_active_states=10000)
    best = k2.one_best_decoding(lat, use_double_scores=c['double'])
    got = k2.get_aux_labels(best)
    tot = best.get_tot_scores(use_double_scores=True, log_semiring=False).tolist()
    for i, n in enumerate(lens):
        a = lp[i][:n].argmax(-1).tolist()
        check_eq(got[i], [k for k, _ in itertools.groupby(a) if k], 'greedy decoding', i, c)
        check_close(tot[i], lp[i][:n].max(-1).values.double().sum().item(), 'score', i, c, rtol=1e-5, atol=1e-3)
    return True, [f'T{T}', f'V{V}', f'N{N}']


SUBS = [Sub('topo', topo_case, run_topo, 400), Sub('graph', graph_case, run_graph, 800), Sub('loss', loss_case, run_loss, 1000), Sub('longloss', longloss_case, run_loss, 60), Sub('torchloss', torch_case, run_torch, 120), Sub('greedy', greedy_case, run_greedy, 100),
        Sub('decode', decode_case, run_decode, 800)]
