"""T01: mutual-information recursion and the full RNN-T losses."""
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import rn
from vlib.core import Sub, check, check_eq, check_close, check_all_close, close, Violation

TECHNIQUE = 'RNN-T scores, losses, occupation counts and gradients against explicit alignment sums in double precision'
NOTE = ('The reference writes px/py from the documented formulas (log-softmax of the sum, of the parts, HAT excluded) in float64 and sums '
        'alignments by listing them (small) and by a dynamic program.')
RULE = ('mi: px/py directly. simple/joint/smoothed: logits, symbols, boundaries, rnnt types, penalties, reductions. long: up to 300 frames, 150 symbols, 300 sequences. '
        'Non-trivial: some sequence has two or more alignments.')

NEG = float('-inf')
DT = {'f': torch.float32, 'd': torch.float64}


@st.composite
def dims(draw, smax=4, tmax=6, bmax=3):
    modified = draw(st.sampled_from(['regular', 'regular', 'modified', 'constrained']))
    B = draw(st.integers(1, bmax))
    T = draw(st.one_of(st.integers(1, tmax), st.integers(max(1, tmax - 2), tmax)))
    top = min(smax, T) if modified != 'regular' else smax
    S = draw(st.one_of(st.integers(0, top), st.integers(min(2, top), top)))
    if smax > 30 and draw(st.booleans()):
        S = max(0, top - draw(st.integers(0, 3)))
    box = None
    if draw(st.integers(0, 3)):
        box = []
        begin = draw(st.integers(0, 3)) == 0
        for _ in range(B):
            t1 = draw(st.one_of(st.just(T), st.integers(1, T)))
            top = min(S, t1) if modified != 'regular' else S
            s1 = draw(st.one_of(st.just(top), st.integers(0, top)))
            s0 = t0 = 0
            if begin:
                s0 = draw(st.integers(0, s1))
                t0 = draw(st.integers(0, t1 - 1))
                if modified != 'regular':
                    s0 = max(s0, s1 - (t1 - t0))
            box.append([s0, t0, s1, t1])
    return {'type': modified, 'B': B, 'S': S, 'T': T, 'box': box, 'seed': draw(st.integers(0, 10**6)),
            'dt': draw(st.sampled_from('fd')), 'scale': draw(st.sampled_from([0.5, 2, 2, 8]))}


@st.composite
def mi(draw, *size):
    c = draw(dims(*size))
    c['ninf'] = draw(st.sampled_from([0, 0, 0, 0.1]))
    c['lay'] = draw(st.sampled_from(['plain', 'transposed', 'sliced']))
    c['grad'] = draw(st.sampled_from(['both', 'both', 'x', 'y', 'none']))
    c['ret'] = draw(st.booleans())
    c['N'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return c


@st.composite
def loss(draw, *size):
    c = draw(dims(*(size or (3, 5))))
    c['shift'] = draw(st.sampled_from([0, 0, 0, 100]))
    c['C'] = draw(st.integers(2, 4))
    c['term'] = draw(st.integers(0, c['C'] - 1))
    c['red'] = draw(st.sampled_from(['none', 'mean', 'sum', 'default']))
    c['pen'] = draw(st.sampled_from([0.0, 0.0, 0.25, 1.5]))
    c['lms'] = draw(st.sampled_from([0.0, 0.1, 0.25, 0.5]))
    c['ams'] = draw(st.sampled_from([0.0, 0.1, 0.25, 0.5]))
    c['ret'] = draw(st.booleans())
    c['anysym'] = draw(st.booleans())
    return c


def boxes(c):
    return c['box'] if c['box'] is not None else [[0, 0, c['S'], c['T']]] * c['B']


def bt(c):
    return None if c['box'] is None else torch.tensor(c['box'], dtype=torch.int64).reshape(c['B'], 4)


def refs(px, py, c):
    """Totals and occupation tensors (float64) for px, py (B lists or float64 tensors)."""
    mod = c['type'] != 'regular'
    px, py = px.tolist(), py.tolist()
    tot, ox, oy, many = [], [], [], False
    for b, bx in enumerate(boxes(c)):
        t, x, y = rn.align(px[b], py[b], bx, mod)
        e = rn.enum(px[b], py[b], bx, mod)
        if e is not None:
            assert close(e, t, 1e-9, 1e-9), 'the two references differ'
        s, tt = bx[2] - bx[0], bx[3] - bx[1]
        many |= 0 < s and (s < tt if mod else tt > 1)
        tot.append(t)
        ox.append(x)
        oy.append(y)
    return tot, ox, oy, many


def tens(x, like):
    return torch.tensor(x, dtype=torch.float64).reshape(like.shape)


def near(got, want, what, c, k=1.0):
    """Tensors agree to the precision of the type of the case."""
    check_eq(tuple(got.shape), tuple(want.shape), 'shape of', what)
    tol = (2e-4 if c['dt'] == 'f' else 1e-7) * k * c.get('loose', 1)
    g, w = got.detach().double().reshape(-1), want.detach().double().reshape(-1)
    same = (g == w) | ((g - w).abs() <= tol * (1 + w.abs()))
    check(bool(same.all()), what, 'got', g.tolist(), 'want', w.tolist())


def arr(g, shape, c, ninf=0.0):
    x = (torch.rand(shape, generator=g, dtype=torch.float64) * 2 - 1) * c['scale']
    if ninf:
        x[torch.rand(shape, generator=g) < ninf] = NEG
    return x.to(DT[c['dt']])


def laid(x, how):
    if how == 'transposed':
        return x.permute(2, 0, 1).contiguous().permute(1, 2, 0)
    if how == 'sliced':
        y = torch.full((x.shape[0] + 1, x.shape[1] + 1, x.shape[2] + 2), 7., dtype=x.dtype)
        y[1:, 1:, 1:-1] = x
        return y[1:, 1:, 1:-1]
    return x.clone()


def run_mi(c):
    g = torch.Generator().manual_seed(c['seed'])
    B, S, T = c['B'], c['S'], c['T']
    mod = c['type'] != 'regular'
    T1 = T if mod else T + 1
    n = max(1, c['N'])
    px = [arr(g, (B, S, T1), c, c['ninf']) for _ in range(n)]
    py = [arr(g, (B, S + 1, T), c, c['ninf']) for _ in range(n)]
    sx, sy = sum(x.double() for x in px), sum(x.double() for x in py)
    tot, ox, oy, many = refs(sx, sy, c)
    if NEG in tot:
        return False, ['no alignment']
    w = torch.randint(-8, 9, (B,), generator=g).to(DT[c['dt']]) / 4
    ox, oy = tens(ox, sx), tens(oy, sy)
    X = [laid(x, c['lay']).requires_grad_(c['grad'] in ('both', 'x')) for x in px]
    Y = [laid(x, c['lay']).requires_grad_(c['grad'] in ('both', 'y')) for x in py]
    w3 = w.double().reshape(B, 1, 1)
    if c['N'] == 0:
        out = k2.mutual_information_recursion(X[0], Y[0], bt(c), c['ret'])
        if c['ret']:
            out, (gx, gy) = out
            near(gx, ox, 'occupation of px', c)
            near(gy, oy, 'occupation of py', c)
        check_eq(out.dtype, DT[c['dt']], 'dtype')
        near(out, torch.tensor(tot), 'total', c)
        check_eq(out.requires_grad, c['grad'] != 'none', 'requires_grad')
        if c['grad'] != 'none':
            out.backward(w)
            for t, o, k in ((X[0], ox, 'x'), (Y[0], oy, 'y')):
                if t.requires_grad:
                    near(t.grad, o * w3, 'gradient of p' + k, c)
                else:
                    check(t.grad is None, 'gradient of a tensor that does not require it')
    else:
        out = k2.joint_mutual_information_recursion(X, Y, bt(c))
        check_eq(tuple(out.shape), (n, B), 'shape')
        near(out.sum(0), torch.tensor(tot), 'sum of the parts', c, 10)
        for i in range(1, n):
            z = lambda o, v: torch.where(o > 0, o * v.double(), torch.zeros_like(o)).reshape(B, -1).sum(1)
            if c['ninf'] == 0:
                near(out[i], z(ox, px[i]) + z(oy, py[i]), 'part', c, 10)
        if c['grad'] == 'both':
            W = torch.randint(-8, 9, (n, B), generator=g).to(DT[c['dt']]) / 4
            out.backward(W)
            for i in range(n):
                wi = W[i].double().reshape(B, 1, 1)
                near(torch.where(sx == NEG, torch.zeros_like(sx), X[i].grad.double()), ox * wi, 'gradient of a part of px', c)
                near(torch.where(sy == NEG, torch.zeros_like(sy), Y[i].grad.double()), oy * wi, 'gradient of a part of py', c)
    for a, b in zip(X + Y, px + py):
        check(torch.equal(a.detach(), b), 'input changed')
    return many, [c['type'], 'box' if c['box'] else 'no box', c['lay'], f"N{c['N']}"]


def finish(px, py, sym, c, pen):
    """px, py: float64 log-probs (B, S, T), (B, S+1, T) of symbols and termination -> the tensors of the recursion."""
    B, S, T = c['B'], c['S'], c['T']
    if c['type'] == 'constrained':
        px = px + py[:, 1:, :]
    if c['type'] == 'regular':
        px = torch.cat([px, torch.full((B, S, 1), NEG, dtype=px.dtype)], 2)
        for b, bx in enumerate(boxes(c)):
            m = torch.zeros_like(px, dtype=torch.bool)
            m[b, :, bx[3]] = True
            px = px.masked_fill(m, NEG)
    raw = px
    if pen:
        off = torch.tensor([(bx[3] - 1) / 2 for bx in boxes(c)], dtype=torch.float64).reshape(B, 1, 1)
        px = px + pen * (off - torch.arange(px.shape[2], dtype=torch.float64).reshape(1, 1, -1))
    return raw, px, py


def pick(lp, sym, c):
    """lp (B, S+1, T, C) log-probs -> px, py."""
    S = c['S']
    idx = sym.reshape(c['B'], S, 1, 1).expand(-1, -1, c['T'], 1)
    return lp[:, :S].gather(3, idx).squeeze(3), lp[..., c['term']]


def reduce(x, red):
    return x if red == 'none' else x.sum() if red == 'sum' else x.mean()


def run_loss(c, which):
    g = torch.Generator().manual_seed(c['seed'])
    r = random.Random(c['seed'])
    B, S, T, C = c['B'], c['S'], c['T'], c['C']
    sym = torch.tensor([[r.choice([x for x in range(C) if c['anysym'] or x != c['term']]) for _ in range(S)] for _ in range(B)],
                       dtype=torch.int64).reshape(B, S)
    if which == 'joint':
        ins = [arr(g, (B, T, S + 1, C), c)]
    else:
        ins = [arr(g, (B, S + 1, C), c), arr(g, (B, T, C), c)]
    if c['shift']:      # a constant added to all scores of a position changes nothing
        ins = [x + torch.tensor([r.choice([0, 16, 32, c['shift'], -c['shift']]) for _ in range(x[..., 0].numel())], dtype=x.dtype).reshape(x.shape[:-1] + (1,))
               for x in ins]
    ref = [x.double().clone().requires_grad_(True) for x in ins]
    if which == 'joint':
        px, py = pick(torch.log_softmax(ref[0], 3).permute(0, 2, 1, 3), sym, c)
    else:
        lm, am = ref
        lp = torch.log_softmax(lm.unsqueeze(2) + am.unsqueeze(1), 3)
        px, py = pick(lp, sym, c)
        if which == 'smoothed':
            a = torch.log_softmax(lm, 2)
            u = a.exp().mean((0, 1)).log()
            b = torch.log_softmax(am + u, 2)
            x1, y1 = pick(a.unsqueeze(2).expand(B, S + 1, T, C), sym, c)
            x2, y2 = pick(b.unsqueeze(1).expand(B, S + 1, T, C), sym, c)
            k = 1 - c['lms'] - c['ams']
            px = k * px + c['lms'] * x1 + c['ams'] * x2
            py = k * py + c['lms'] * y1 + c['ams'] * y2
    raw, px, py = finish(px, py, sym, c, c['pen'])
    tot, ox, oy, many = refs(px, py, c)
    if NEG in tot:
        return False, ['no alignment']
    ox, oy = tens(ox, px), tens(oy, py)
    X = [x.clone().requires_grad_(True) for x in ins]
    kw = dict(symbols=sym.clone(), termination_symbol=c['term'], boundary=bt(c), rnnt_type=c['type'])
    if c['box'] is None and r.random() < .5:
        del kw['boundary']
    if which == 'joint':
        kw['logits'] = X[0]
        fp, fl = k2.get_rnnt_logprobs_joint, k2.rnnt_loss
    else:
        kw['lm'], kw['am'] = X
        fp, fl = k2.get_rnnt_logprobs, k2.rnnt_loss_simple
        if which == 'smoothed':
            kw['lm_only_scale'], kw['am_only_scale'] = c['lms'], c['ams']
            fp, fl = k2.get_rnnt_logprobs_smoothed, k2.rnnt_loss_smoothed
    gx, gy = fp(**kw)
    if which == 'smoothed' and c['type'] == 'regular':
        # where nothing is read the interpolation may leave anything
        m = torch.isfinite(raw)
        gx = torch.where(m, gx, torch.full_like(gx, NEG))
    near(gx, raw, 'px', c, 4)
    near(gy, py, 'py', c, 4)
    if c['red'] != 'default':
        kw['reduction'] = c['red']
    if c['pen'] or r.random() < .5:
        kw['delay_penalty'] = c['pen']
    if which != 'joint' and c['ret']:
        out, (hx, hy) = fl(return_grad=True, **kw)
        near(hx, ox, 'returned occupation of px', c, 4)
        near(hy, oy, 'returned occupation of py', c, 4)
    else:
        out = fl(**kw)
    want = reduce(-torch.tensor(tot, dtype=torch.float64), 'mean' if c['red'] == 'default' else c['red'])
    near(out, want, 'loss', c, 4)
    w = torch.randint(-8, 9, (B,), generator=g).double() / 4
    if c['red'] != 'none':
        w = torch.full((B,), 1.5 * (1 if c['red'] == 'sum' else 1 / B), dtype=torch.float64)
        out.backward(torch.tensor(1.5, dtype=out.dtype))
    else:
        out.backward(w.to(out.dtype))
    w3 = -w.reshape(B, 1, 1)
    fin = torch.isfinite(px)
    want = torch.autograd.grad([px, py], ref, [torch.where(fin, ox * w3, torch.zeros_like(ox)), oy * w3])
    for a, b, nm in zip(X, want, ['logits'] if which == 'joint' else ['lm', 'am']):
        near(a.grad, b, 'gradient of ' + nm, c, 8)
    for a, b in zip(X, ins):
        check(torch.equal(a.detach(), b), 'input changed')
    check(torch.equal(sym, kw['symbols']), 'symbols changed')
    return many, [which, c['type'], 'box' if c['box'] else 'no box', 'penalty' if c['pen'] else 'no penalty', c['red']]


@st.composite
def long(draw):
    which = draw(st.sampled_from(['mi', 'mi', 'simple', 'joint', 'smoothed']))
    size = draw(st.sampled_from([(40, 150, 2), (150, 40, 2), (5, 300, 2), (4, 6, 300), (34, 34, 8)]))
    c = draw(mi(*size) if which == 'mi' else loss(*size))
    if which != 'mi':
        c['C'] = draw(st.sampled_from([2, 5, 70, 500])) if size[1] * size[0] * size[2] < 10000 else 3
        c['term'] = draw(st.integers(0, c['C'] - 1))
    else:
        c['ninf'] = 0
    c.update(which=which, scale=draw(st.sampled_from([0.5, 2])), loose=20)
    return c


def run_long(c):
    nt, labels = run_mi(c) if c['which'] == 'mi' else run_loss(c, c['which'])
    return nt, labels + [c['which'], 'T>32' if c['T'] > 32 else 'S>32' if c['S'] > 32 else 'B>32' if c['B'] > 32 else 'small']


SUBS = [Sub('long', long, run_long, 400),
        Sub('mi', mi, run_mi, 4000),
        Sub('simple', loss, lambda c: run_loss(c, 'simple'), 2500),
        Sub('joint', loss, lambda c: run_loss(c, 'joint'), 2500),
        Sub('smoothed', loss, lambda c: run_loss(c, 'smoothed'), 2500)]
