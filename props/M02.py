"""M02: swoosh activations against their formulas."""
import math
import random

import torch
import k2
from hypothesis import strategies as st

from vlib.core import Sub, check, check_eq

TECHNIQUE = 'generated tensors (shapes, layouts, dtypes, magnitudes, upstream gradients) against the documented formula in double precision'
NOTE = 'Quantised gradients are allowed one quantisation step per element and must be unbiased over many elements.'
RULE = ('values from 1e-30 to 1e30 of both signs around the shifts; up to 132000 elements; contiguous, transposed, strided, expanded, 0-dimensional, empty. '
        'Non-trivial: at least 4 elements, or a layout that is not contiguous, or dropout.')

CONST = dict(l=(4.0, 0.08, 0.035), r=(1.0, 0.08, 0.313261687))
STEP = 1.005 / 255
DT = dict(f32=torch.float32, f64=torch.float64, f16=torch.float16, bf16=torch.bfloat16)


def formula(kind, x):
    s, c, o = CONST[kind]
    z = x - s
    return (z + math.log1p(math.exp(-z)) if z > 0 else math.log1p(math.exp(z))) - c * x - o


def deriv(kind, x):
    s, c, _ = CONST[kind]
    z = x - s
    return (1 / (1 + math.exp(-z)) if z > -700 else 0.0) - c


def tol(y, x):
    return 3e-6 * (1 + abs(x)) if abs(x) < 1e4 else 1e-6 * abs(x)


def value():
    return st.one_of(st.floats(-8, 12, width=32), st.floats(-110, 110, width=32), st.sampled_from([0.0, -0.0, 4.0, 1.0, 88.0, 93.0, 1e30, -1e30, 1e4, -1e4, 1e-30, float('nan')]))


@st.composite
def tensor(draw, nan=True):
    shape = draw(st.one_of(st.lists(st.sampled_from([0, 1, 1, 2, 3, 4, 5]), max_size=3), st.lists(st.integers(1, 4), min_size=1, max_size=3)))
    n = math.prod(shape)
    vals = draw(st.lists(value(), min_size=1, max_size=8))
    if not nan:
        vals = [0.5 if v != v else v for v in vals]
    return dict(kind=draw(st.sampled_from('lr')), shape=shape, n=n, vals=vals, seed=draw(st.integers(0, 10**6)),
                layout=draw(st.sampled_from(['c', 'c', 'c', 't', 's', 'e'])), dtype=draw(st.sampled_from(['f32', 'f32', 'f32', 'f64', 'f16', 'bf16'])))


def layout(t, how):
    """The same values laid out differently."""
    if how == 't' and t.dim() >= 1:
        p = list(reversed(range(t.dim())))
        return t.permute(p).contiguous().permute(p)
    if how == 's' and t.dim() >= 1:
        return torch.stack([t, t + 1], dim=-1)[..., 0]
    if how == 'e' and t.dim() >= 1 and t.shape[0] > 0:
        return t[:1].expand(t.shape)
    if how == 'o' and t.dim() >= 1 and t.shape[-1] == 1:
        # a contiguous tensor whose last stride is not 1
        big = torch.zeros(t.numel() * 4 + 4)
        o = big.as_strided(t.shape, tuple(t.contiguous().stride()[:-1]) + (7,))
        o.copy_(t)
        return o
    return t


def make(c):
    rnd = random.Random(c['seed'])
    vals = [rnd.choice(c['vals']) if rnd.random() < 0.6 else rnd.choice(c['vals'][:3]) + rnd.uniform(-3, 3) for _ in range(c['n'])]
    x = torch.tensor(vals, dtype=torch.float32).reshape(c['shape'])
    dt = DT[c['dtype']]
    if c['dtype'] == 'f16':
        x = x.clamp(-6e4, 6e4)
    x = layout(x, c['layout'])
    y = x.to(dt)
    if y.stride() != x.stride():
        y = layout(y.contiguous(), c['layout'])
    return y


def flat(t):
    return t.detach().double().reshape(-1).tolist()


def match(got, want, ref, what, scale=1.0):
    for i, (g, w, x) in enumerate(zip(got, want, ref)):
        if w != w:
            check(g != g, 'NaN expected', i, got, what)
        else:
            check(abs(g - w) <= tol(w, x) * scale, 'element', i, 'x', x, 'got', g, 'want', w, what)


def run_forward(c):
    x = make(c)
    keep = x.clone()
    xs = flat(x)
    want = [formula(c['kind'], v) if v == v else v for v in xs]
    dw = [deriv(c['kind'], v) if v == v else v for v in xs]
    f = getattr(k2, 'swoosh_' + c['kind'])
    f1 = getattr(k2, f'swoosh_{c["kind"]}_forward')
    f2 = getattr(k2, f'swoosh_{c["kind"]}_forward_and_deriv')
    y, y1, (y2, d) = f(x), f1(x), f2(x)
    for t, n in ((y, 'swoosh'), (y1, 'forward'), (y2, 'forward_and_deriv'), (d, 'derivative')):
        check_eq(list(t.shape), c['shape'], 'shape of', n, c)
        check(not t.requires_grad, 'requires_grad', n)
    match(flat(y), want, xs, ('swoosh', c))
    match(flat(y1), want, xs, ('forward', c))
    match(flat(y2), want, xs, ('forward_and_deriv', c))
    for g, w in zip(flat(d), dw):
        check((g != g) if w != w else abs(g - w) < 1e-6, 'derivative', g, w, c)
    check(torch.equal(x.nan_to_num(7), keep.nan_to_num(7)), 'the input changed', c)
    # without a gradient nothing is dropped
    y3 = f(x, 0.7)
    check(torch.equal(y3.nan_to_num(7), y.nan_to_num(7)), 'dropout without requires_grad', c)
    return c['n'] >= 4 or c['layout'] != 'c', [c['layout'], c['dtype'], f'dim{len(c["shape"])}'] + (['nan'] if any(v != v for v in xs) else [])


@st.composite
def back_case(draw):
    c = draw(tensor(nan=False))
    c['drop'] = draw(st.sampled_from([0.0, 0.0, 0.0, 0.1, 0.5, 0.9]))
    c['up'] = draw(st.sampled_from(['c', 'c', 't', 's', 'e', 'o', 'o', 'sum', 'yt', 'ys', 'yidx']))
    c['ups'] = draw(st.lists(st.floats(-4, 4, width=32), min_size=1, max_size=5))
    c['pre'] = draw(st.booleans())
    return c


def run_back(c):
    x0 = make(c)
    if c['pre']:
        leaf = x0.detach().clone().requires_grad_(True)
        x = leaf * 1
        if c['layout'] in ('t', 's') and leaf.dim() >= 2:
            x = leaf.transpose(0, 1).clone().transpose(0, 1)
    else:
        leaf = x = x0.detach().requires_grad_(True) if c['layout'] != 'e' else x0.detach().clone().requires_grad_(True)
    f = getattr(k2, 'swoosh_' + c['kind'])
    torch.manual_seed(c['seed'])
    y = f(x, c['drop']) if c['drop'] else f(x)
    check_eq(list(y.shape), c['shape'], 'shape', c)
    xs = flat(x)
    p = c['drop']
    full = [formula(c['kind'], v) for v in xs]
    dv = [deriv(c['kind'], v) for v in xs]
    ys = flat(y)
    kept = []
    for i, (v, g, w) in enumerate(zip(xs, ys, full)):
        t = tol(w, v) / (1 - p)
        if abs(g - w / (1 - p)) <= t:
            kept.append(None if p and abs(g) <= t and g == 0 else True)
        else:
            check(p > 0 and g == 0, 'element', i, 'x', v, 'got', g, 'want', w / (1 - p), c)
            kept.append(False)
    # the upstream gradient
    rnd = random.Random(c['seed'] + 1)
    up = torch.tensor([rnd.choice(c['ups']) for _ in range(c['n'])]).reshape(c['shape'])
    how = c['up']
    if how == 'sum':
        up = torch.ones(c['shape'])
        y.sum().backward()
    elif how == 'yt' and y.dim() == 2:
        (y.t() * up.t().contiguous()).sum().backward()
    elif how == 'ys' and y.dim() >= 1:
        m = torch.zeros(c['shape'])
        m[..., ::2] = 1
        (y[..., ::2] * up[..., ::2]).sum().backward()
        up = up * m
    elif how == 'yidx' and y.dim() >= 1 and y.shape[0] > 0:
        m = torch.zeros(c['shape'])
        m[-1] = 1
        (y[-1] * up[-1]).sum().backward()
        up = up * m
    else:
        u = layout(up, how)
        up = u.clone()
        y.backward(u)
        check(torch.equal(u, up), 'the upstream gradient changed', c)
    check(leaf.grad is not None and leaf.grad.shape == leaf.shape and leaf.grad.dtype == leaf.dtype, 'gradient', leaf.grad, c)
    slack = {'f32': 1e-5, 'f64': 1e-5, 'f16': 1e-3, 'bf16': 1e-2}[c['dtype']]
    for i, (g, u, d, k) in enumerate(zip(flat(leaf.grad), flat(up), dv, kept)):
        opts = [d / (1 - p)] if k else [0.0] if k is False else [0.0, d / (1 - p)]
        room = abs(u) * STEP * 1.001 / (1 - p) + slack * (abs(u) / (1 - p) + 1e-3)
        check(any(abs(g - u * o) <= room for o in opts), 'gradient of element', i, 'x', xs[i], 'upstream', u, 'got', g, 'want', [u * o for o in opts], c)
    return c['n'] >= 4 or how != 'c' or p > 0, [how, c['layout'], c['dtype'], f'dim{len(c["shape"])}', 'dropout' if p else 'plain']


@st.composite
def stat_case(draw):
    return dict(kind=draw(st.sampled_from('lr')), x=draw(st.floats(-6, 10, width=32)), p=draw(st.sampled_from([0.0, 0.0, 0.2, 0.5, 0.8])),
                seed=draw(st.integers(0, 10**6)), n=draw(st.sampled_from([2000, 6000])), u=draw(st.sampled_from([1.0, -2.0, 0.5])))


def run_stat(c):
    torch.manual_seed(c['seed'])
    n, p = c['n'], c['p']
    x = torch.full((n,), c['x']).requires_grad_(True)
    f = getattr(k2, 'swoosh_' + c['kind'])
    y = f(x, p)
    y.sum().backward() if c['u'] == 1.0 else (y * c['u']).sum().backward()
    v, d = formula(c['kind'], float(x[0])), deriv(c['kind'], float(x[0]))
    q = (1 - p)
    drop = (y == 0) if p > 0 and abs(v) > 1e-4 else None
    if drop is not None:
        k = int(drop.sum())
        check(abs(k - n * p) <= 7 * math.sqrt(n * p * q) + 1, 'dropped', k, 'of', n, c)
        g = x.grad
        for m, want in ((~drop, d / q), (drop, 0.0)):
            if int(m.sum()) >= 100:
                room = 7 * 0.5 * STEP / math.sqrt(int(m.sum())) / q + 1e-5 / q
                got = float(g[m].double().mean()) / c['u']
                check(abs(got - want) <= room, 'mean gradient', got, 'want', want, 'room', room, c)
    elif p == 0:
        got = float(x.grad.double().mean()) / c['u']
        room = 7 * 0.5 * STEP / math.sqrt(n) + 1e-5
        check(abs(got - d) <= room, 'mean gradient', got, 'want', d, 'room', room, c)
    torch.manual_seed(c['seed'])
    y2 = f(x.detach().clone().requires_grad_(True), p)
    check(torch.equal(y, y2), 'another result with the same seed', c)
    return True, ['dropout' if p else 'plain']


@st.composite
def big(draw):
    c = draw(back_case())
    c['shape'] = draw(st.sampled_from([[257], [5000], [70000], [70000, 1], [1, 70000], [300, 200], [2, 3, 9000], [66000, 2]]))
    c['n'] = math.prod(c['shape'])
    c['fwd'] = draw(st.booleans())
    return c


def run_big(c):
    _, labels = (run_forward if c['fwd'] else run_back)(c)
    p = c['drop']
    if p and not c['fwd'] and c['layout'] != 'e':
        torch.manual_seed(c['seed'])
        f = getattr(k2, 'swoosh_' + c['kind'])
        x = make(dict(c, vals=[6.0], dtype='f32')).requires_grad_(True)      # no value is near zero
        z = (f(x, p) == 0).flatten()
        for part in (z[:len(z) // 2], z[len(z) // 2:], z[::2], z[1::2]):
            k, m = int(part.sum()), len(part)
            check(abs(k - m * p) <= 7 * math.sqrt(m * p * (1 - p)) + 1, 'dropped', k, 'of', m, 'elements of one part', c)
    return True, labels


SUBS = [
    Sub('big', big, run_big, 120),
    Sub('forward', tensor, run_forward, 8000),
    Sub('backward', back_case, run_back, 8000),
    Sub('statistics', stat_case, run_stat, 1600),
]
