"""T02: pruning ranges, pruned RNN-T log-probs/loss and the pruned lattice."""
import contextlib
import io
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import rn, fsa as F
from vlib.core import Sub, check, check_eq, check_close, close
from props.T01 import DT, NEG, arr, boxes, bt, dims, finish, near, reduce, refs, tens

TECHNIQUE = 'pruning bands against their definition and pruned losses/lattices against explicit sums over the alignments inside the band'
NOTE = 'Bands come from the real pipeline, from arbitrary occupation arrays and from random legal walks.'
RULE = ('ranges: real and arbitrary occupation counts, lengths, widths. loss: pruned log-probs, losses (plain and HAT), gradients. '
        'lattice: the band as an FSA. bigloss, biglattice: up to 1000 frames, 40 symbols, 200 sequences, bands of up to 33. Non-trivial: the band excludes some position and leaves two or more alignments (ranges: S >= 2).')


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@st.composite
def rcase(draw, *sizes):
    c = draw(dims(*(draw(st.sampled_from(sizes)) if sizes else (6, 7))))
    if c['box'] is None:
        c['box'] = [[0, 0, c['S'], c['T']]] * c['B']
    c['box'] = [[0, 0, b[2], b[3]] for b in c['box']]
    c['range'] = draw(st.sampled_from(([1] if c['type'] == 'modified' else []) + [2, 2, 2, 3, 3, 4, 6]))
    c['src'] = draw(st.sampled_from(['real', 'real', 'sharp', 'any', 'ints']))
    c['old'] = draw(st.integers(0, 4)) == 0
    return c


def legal(rg, c, what):
    """rg: nested lists (B, T, r). The documented constraints."""
    S, T, reg = c['S'], c['T'], c['type'] == 'regular'
    check_eq(len(rg), c['B'], 'batch', what)
    w = len(rg[0][0])
    for b, x in enumerate(rg):
        check_eq(len(x), T, 'frames', what)
        beg = [y[0] for y in x]
        for y in x:
            check_eq(y, list(range(y[0], y[0] + w)), 'not consecutive', what)
            check(0 <= y[0] and y[-1] <= S, 'outside of the transcript', rg, c, what)
        check_eq(beg[0], 0, 'first frame', what)
        step = w - 1 if reg else 1
        for u, v in zip(beg, beg[1:]):
            check(0 <= v - u <= max(step, 0), 'step', u, v, 'width', w, rg, c, what)
        s1, t1 = c['box'][b][2:]
        last = x[t1 - 1]
        check(s1 in last if reg else (s1 in last or s1 - 1 == last[-1]), 'the last symbol is not in the last frame', last, s1, t1, c, what)
    return w


def band_ok(rg, box, kind):
    """Is there an alignment inside the band (brute force)?"""
    s1, t1 = box[2:]
    cur = {0}
    for t in range(t1):
        inb = set(rg[t])
        cur &= inb
        if kind == 'regular':
            for s in sorted(inb):
                if s in cur and s + 1 in inb and s < s1:
                    cur.add(s + 1)
            # emitting out of the band leads nowhere
            nxt = set(cur)
        else:
            # constrained: the blank that goes with the symbol is that of the next position
            nxt = set(cur) | {s + 1 for s in cur if s < s1 and (kind == 'modified' or s + 1 in inb)}
        cur = nxt
    return s1 in cur


def occupations(c, g):
    """px_grad, py_grad tensors."""
    B, S, T = c['B'], c['S'], c['T']
    mod = c['type'] != 'regular'
    T1 = T if mod else T + 1
    if c['src'] == 'any':
        return torch.rand((B, S, T1), generator=g), torch.rand((B, S + 1, T), generator=g)
    if c['src'] == 'ints':
        return (torch.randint(0, 3, (B, S, T1), generator=g).float(), torch.randint(0, 3, (B, S + 1, T), generator=g).float())
    k = dict(c, scale=20 if c['src'] == 'sharp' else 2)
    px, py = arr(g, (B, S, T1), k), arr(g, (B, S + 1, T), k)
    if not mod:
        px = k2.rnnt_loss.__globals__['fix_for_boundary'](px, bt(c))
    _, (gx, gy) = k2.mutual_information_recursion(px, py, bt(c), True)
    return gx, gy


def run_ranges(c):
    g = torch.Generator().manual_seed(c['seed'])
    B, S, T = c['B'], c['S'], c['T']
    reg = c['type'] == 'regular'
    gx, gy = occupations(c, g)
    c0, c1 = gx.clone(), gy.clone()
    if c['seed'] % 3 == 0:
        gy = gy.permute(2, 0, 1).contiguous().permute(1, 2, 0)
    if c['old']:
        # the deprecated version does not widen by itself
        if reg and any(b[2] > (min(c['range'], S + 1) - 1) * b[3] for b in c['box']):
            return False, ['too narrow']
        if reg and S == 0:
            return False, ['deprecated, S=0']
        rg = quiet(k2.get_rnnt_prune_ranges_deprecated, gx, gy, bt(c), c['range'])
    else:
        rg = quiet(k2.get_rnnt_prune_ranges, gx, gy, bt(c), c['range'])
    check(torch.equal(gx, c0) and torch.equal(gy, c1), 'input changed')
    check_eq(rg.dtype, torch.int64, 'dtype')
    r = rg.tolist()
    w = legal(r, c, 'ranges')
    need = max([1] + [-(-b[2] // b[3]) + 1 for b in c['box']]) if reg else 1
    check_eq(w, min(max(c['range'], need), S + 1), 'width of the band')
    for b in range(B):
        check(band_ok(r[b], c['box'][b], c['type']), 'no alignment inside the band', r[b], c['box'][b], c['type'])
    # the band itself: argmax per frame, then the documented adjustment
    if not c['old']:
        gx, gy = gx.double().tolist(), gy.double().tolist()
        step = w - 1 if reg else 1
        for b in range(B):
            s1, t1 = c['box'][b][2:]
            raw, sure = [], True
            for t in range(T):
                if t >= t1 - 1:
                    raw.append(max(0, s1 - w + 1))
                    continue
                sc = [sum(gy[b][s + k][t] for k in range(w)) - (gx[b][s - 1][t] if s > 0 else 0) for s in range(S + 2 - w)]
                m = max(sc)
                if len([x for x in sc if x > m - 1e-4]) > 1:
                    sure = False
                raw.append(sc.index(m))
            if sure:
                mono = [min(raw[t:]) for t in range(T)]
                want = [min(step * t, max(mono[u] - step * (u - t) for u in range(t, T))) for t in range(T)]
                check_eq([y[0] for y in r[b]], want, 'begin of the band', raw, c)
    return S >= 2, [c['type'], c['src'], 'pruned' if w < S + 1 else 'full']


@st.composite
def loss(draw, *size):
    c = draw(dims(*(size or (4, 5))))
    c['box'] = [[0, 0, b[2], b[3]] for b in boxes(c)] if draw(st.integers(0, 3)) else None
    c['C'] = draw(st.integers(2, 4))
    c['hat'] = draw(st.integers(0, 2)) == 0
    c['term'] = 0 if c['hat'] else draw(st.integers(0, c['C'] - 1))
    c['range'] = draw(st.sampled_from(([1] if c['type'] == 'modified' else []) + [2, 2, 2, 3, 3, 4, 5]))
    c['band'] = draw(st.sampled_from(['pipeline', 'pipeline', 'pipeline', 'walk', 'walk', 'all']))
    c['red'] = draw(st.sampled_from(['none', 'mean', 'sum', 'default']))
    c['pen'] = draw(st.sampled_from([0.0, 0.0, 0.25, 1.5]))
    c['shift'] = draw(st.sampled_from([0, 0, 0, 100]))
    return c


def walk(c, r):
    """Random legal bands."""
    S, T, reg = c['S'], c['T'], c['type'] == 'regular'
    w = min(c['range'], S + 1)
    step = w - 1 if reg else 1
    out = []
    for b in boxes(c):
        end = max(0, b[2] - w + 1)
        x, beg = 0, []
        for t in range(T):
            if t:
                x = min(x + r.randint(0, step), S - w + 1)
            beg.append(x)
        # make the end reachable
        if r.random() < .8:
            beg = [min(x, end) for x in beg]
            for t in range(T):
                beg[t] = max(beg[t], end - step * max(0, b[3] - 1 - t))
            beg = [min(x, step * t) for t, x in enumerate(beg)]
        out.append([list(range(x, x + w)) for x in beg])
    return out


def run_loss(c):
    g = torch.Generator().manual_seed(c['seed'])
    r = random.Random(c['seed'])
    B, S, T, C = c['B'], c['S'], c['T'], c['C']
    reg = c['type'] == 'regular'
    sym = torch.tensor([[r.choice([x for x in range(C) if x != c['term']]) for _ in range(S)] for _ in range(B)],
                       dtype=torch.int64).reshape(B, S)
    lm, am = arr(g, (B, S + 1, C), c), arr(g, (B, T, C), c)
    if c['band'] == 'walk':
        rg = torch.tensor(walk(c, r))
    elif c['band'] == 'all':
        rg = torch.arange(S + 1).reshape(1, 1, -1).expand(B, T, S + 1)
        if r.random() < .5:
            rg = rg.contiguous()
    else:
        full = torch.tensor(boxes(c))
        _, (gx, gy) = k2.rnnt_loss_simple(lm, am, sym, c['term'], full, c['type'], reduction='sum', return_grad=True)
        rg = quiet(k2.get_rnnt_prune_ranges, gx, gy, full, c['range'])
    w = rg.shape[2]
    amp, lmp = k2.do_rnnt_pruning(am, lm, rg)
    rl = rg.tolist()
    check_eq(amp.tolist(), [[[x] * w for x in y] for y in am.tolist()], 'pruned am')
    check_eq(lmp.tolist(), [[[lm[b, s].tolist() for s in y] for y in rl[b]] for b in range(B)], 'pruned lm')
    logits = torch.tanh(amp + lmp) * c['scale'] + arr(g, (B, T, w, C), dict(c, scale=.5))
    if c['shift']:
        cols = slice(0, 1) if c['hat'] and r.random() < .7 else slice(None)     # all scores of a position, or its blank alone
        logits[..., cols] += torch.tensor([r.choice([0, 16, 32, c['shift'], -c['shift']]) for _ in range(B * T * w)], dtype=logits.dtype).reshape(B, T, w, 1)
    ref = logits.double().clone().requires_grad_(True)
    if c['hat']:
        nb = torch.log_softmax(ref[..., 1:], 3)
        lb = torch.nn.functional.logsigmoid(ref[..., :1])
        lp = torch.cat([lb, nb + torch.nn.functional.logsigmoid(-ref[..., :1])], 3)
    else:
        lp = torch.log_softmax(ref, 3)
    # to full (B, S+1, T, ...) arrays
    X = torch.full((B, S, T), NEG, dtype=torch.float64)
    Y = torch.full((B, S + 1, T), NEG, dtype=torch.float64)
    ix, iy = [[], [], [], []], [[], [], [], []]
    vx, vy = [], []
    for b in range(B):
        for t in range(T):
            for k, s in enumerate(rl[b][t]):
                if s < S:
                    for q, v in zip(ix, (b, s, t)):
                        q.append(v)
                    vx.append(lp[b, t, k, sym[b, s]])
                for q, v in zip(iy, (b, s, t)):
                    q.append(v)
                vy.append(lp[b, t, k, c['term']])
    if vx:
        X = X.index_put(tuple(torch.tensor(q) for q in ix[:3]), torch.stack(vx))
    Y = Y.index_put(tuple(torch.tensor(q) for q in iy[:3]), torch.stack(vy))
    raw, px, py = finish(X, Y, sym, c, c['pen'])
    tot, ox, oy, many = refs(px, py, c)
    kw = dict(logits=logits.clone().requires_grad_(True), symbols=sym.clone(), ranges=rg, termination_symbol=c['term'],
              boundary=bt(c), rnnt_type=c['type'])
    fp = k2.rnnt_loss.__globals__['get_hat_logprobs_pruned'] if c['hat'] else k2.get_rnnt_logprobs_pruned
    hx, hy = fp(**kw)
    near(hx, raw, 'px', c, 4)
    near(hy, py, 'py', c, 4)
    if c['red'] != 'default':
        kw['reduction'] = c['red']
    if c['hat'] or r.random() < .5:
        kw['use_hat_loss'] = c['hat']
    out = k2.rnnt_loss_pruned(delay_penalty=c['pen'], **kw)
    if c['band'] == 'all' and not c['hat']:
        f = k2.rnnt_loss(logits=logits, symbols=sym, termination_symbol=c['term'], boundary=bt(c), rnnt_type=c['type'],
                         delay_penalty=c['pen'], reduction='mean' if c['red'] == 'default' else c['red'])
        near(out, f.double(), 'full band against the full loss', c, 4)
    near(out, reduce(-torch.tensor(tot, dtype=torch.float64), 'mean' if c['red'] == 'default' else c['red']), 'loss', c, 4)
    if NEG in tot:
        check(c['band'] == 'walk', 'no alignment survives', rl, c)
        return False, ['no alignment']
    wt = torch.randint(-8, 9, (B,), generator=g).double() / 4
    if c['red'] != 'none':
        wt = torch.full((B,), 1.5 * (1 if c['red'] == 'sum' else 1 / B), dtype=torch.float64)
        out.backward(torch.tensor(1.5, dtype=out.dtype))
    else:
        out.backward(wt.to(out.dtype))
    w3 = -wt.reshape(B, 1, 1)
    z = lambda o, v: torch.where(torch.isfinite(v), o * w3, torch.zeros_like(o))
    z2 = [(v, z(tens(o, v), v)) for o, v in ((ox, px), (oy, py)) if v.requires_grad]
    want, = torch.autograd.grad([v for v, _ in z2], [ref], [o for _, o in z2])
    near(kw['logits'].grad, want, 'gradient', c, 8)
    check(torch.equal(kw['logits'].detach(), logits) and torch.equal(sym, kw['symbols']) and rg.tolist() == rl, 'input changed')
    return many and w < S + 1, [c['type'], c['band'], 'hat' if c['hat'] else 'plain', 'pruned' if w < S + 1 else 'full']


@st.composite
def latt(draw, *size):
    c = draw(dims(*(size or (4, 4))))
    c['type'] = 'regular'
    c['C'] = draw(st.integers(2, 4))
    c['range'] = draw(st.sampled_from([2, 2, 3, 3, 4]))
    c['band'] = draw(st.sampled_from(['real', 'walk']))
    c['half'] = draw(st.integers(0, 5)) == 0
    return c


def run_lattice(c):
    g = torch.Generator().manual_seed(c['seed'])
    r = random.Random(c['seed'])
    B, S, T, C = c['B'], c['S'], c['T'], c['C']
    c = dict(c, box=[[0, 0, b[2], b[3]] for b in boxes(c)])
    sym = torch.tensor([[r.randrange(1, C) for _ in range(S)] for _ in range(B)], dtype=torch.int64).reshape(B, S)
    if c['band'] == 'walk':
        rg = torch.tensor(walk(c, r))
    else:
        gx, gy = occupations(dict(c, src='real'), g)
        rg = quiet(k2.get_rnnt_prune_ranges, gx, gy, bt(c), c['range'])
    w = rg.shape[2]
    rl = rg.tolist()
    logits = torch.randint(-24, 25, (B, T, w, C), generator=g).to(torch.float16 if c['half'] else DT[c['dt']]) / 8
    frames = [b[3] for b in c['box']]
    a, amap = k2.pruned_ranges_to_lattice(rg.to(torch.int32), torch.tensor(frames, dtype=torch.int32), sym, logits)
    fsa = k2.Fsa(a)
    got = F.rd(fsa)
    check_eq(len(got), B, 'number of FSAs')
    am = amap.tolist()
    flat = logits.reshape(-1).tolist()
    check_eq(len(am), fsa.num_arcs, 'length of the arc map')
    pos, nontriv = 0, False
    ll = logits.tolist()
    for b, (n, arcs) in enumerate(got):
        check(F.well_formed((n, arcs)) is None, 'malformed', F.well_formed((n, arcs)), n, arcs)
        for s, d, l, sc in arcs:
            i = am[pos]
            pos += 1
            check_eq(sc, flat[i] if i >= 0 else 0.0, 'score of an arc and its logit')
            check_eq(i == -1, l == -1, 'arc without a logit')
            if i >= 0:
                check_eq((i // (T * w * C), i % C), (b, l), 'batch and class of the logit')
        if c.get('big'):        # too many alignments to list: their number and their log-sum
            val, num = {(0, 0): 0.0}, {(0, 0): 1}
            end = (frames[b] - 1, rl[b][frames[b] - 1][-1])
            for t in range(frames[b]):
                for k, s in enumerate(rl[b][t]):
                    if (t, s) not in num or (t, s) == end:
                        continue
                    nx = []
                    if k < w - 1:
                        nx.append(((t, s + 1), ll[b][t][k][int(sym[b][s])]))
                    if t + 1 < frames[b] and s >= rl[b][t + 1][0]:
                        nx.append(((t + 1, s), ll[b][t][k][0]))
                    for q, x in nx:
                        val[q] = F.logadd(val.get(q, NEG), val[t, s] + x)
                        num[q] = num.get(q, 0) + num[t, s]
            check_eq(F.count_paths((n, arcs)), num.get(end, 0), 'number of paths of the lattice', rl[b], frames[b])
            check_close(F.forward((n, arcs), True)[-1] if n else NEG, val.get(end, NEG), 'log-sum of the lattice', rl[b], frames[b],
                        rtol=1e-6, atol=1e-4)
            nontriv |= num.get(end, 0) > 1 and w < S + 1
            continue
        # alignments inside the band
        tb = frames[b]
        last = rl[b][tb - 1][-1]
        want = {}

        def go(t, s, labels, wt):
            k = s - rl[b][t][0]
            if t == tb - 1 and s == last:
                key = tuple(labels)
                want.setdefault(key, []).append(wt)
                return
            if k < w - 1:
                y = int(sym[b][s])
                go(t, s + 1, labels + [y], wt + ll[b][t][k][y])
            if t + 1 < tb and s >= rl[b][t + 1][0]:
                go(t + 1, s, labels + [0], wt + ll[b][t][k][0])
        go(0, rl[b][0][0], [], 0.0)
        have = {}
        for p in F.paths((n, arcs)):
            have.setdefault(tuple(arcs[i][2] for i in p[:-1]), []).append(sum(arcs[i][3] for i in p))
        for v in list(want.values()) + list(have.values()):
            v.sort()
        check_eq(have, want, 'paths of the lattice', rl[b], frames[b])
        nontriv |= len(want) > 1 and w < S + 1
    return nontriv, [c['band'], 'pruned' if w < S + 1 else 'full', 'half' if c['half'] else c['dt']]


SIZES = [(20, 60, 2), (40, 150, 1), (3, 100, 3), (4, 5, 200), (34, 34, 8)]


@st.composite
def bigloss(draw):
    c = draw(loss(*draw(st.sampled_from(SIZES))))
    c.update(scale=draw(st.sampled_from([0.5, 2])), loose=20, range=draw(st.sampled_from([2, 3, 5, 8, 33])))
    return c


@st.composite
def biglatt(draw):
    c = draw(latt(*draw(st.sampled_from(SIZES + [(10, 1000, 1)]))))
    c.update(big=True, range=draw(st.sampled_from([2, 3, 5, 8, 33])), C=draw(st.sampled_from([2, 30, 500])) if c['T'] < 100 else 3)
    return c


SUBS = [Sub('ranges', rcase, run_ranges, 6000), Sub('long', lambda: rcase((24, 30), (24, 30), (24, 30), (60, 200, 2), (200, 60, 2), (4, 6, 200)), run_ranges, 1500), Sub('bigloss', bigloss, run_loss, 150), Sub('biglattice', biglatt, run_lattice, 300),
        Sub('loss', loss, run_loss, 3000), Sub('lattice', latt, run_lattice, 4000)]
