"""R02: per-sublist reductions and value transforms match their list definition."""
import math

import torch
import k2
import k2.ragged as k2r
from hypothesis import strategies as st

from vlib import gen, ragged as R
from vlib.core import Sub, check, check_eq, check_all_close, close
from vlib.fsa import logsum

TECHNIQUE = 'every reduction/transform of generated ragged tensors against a list-by-list Python definition, with gradients'
NOTE = 'sum, logsumexp, max, min, argmax, normalize, add, sort_ over the last axis, in int32/float32/float64, and autograd.'
RULE = ('One ragged tensor (2-4 axes, empty sublists at all levels, dtypes int32/float32/float64, small, huge and tied '
        'values) and one operation with generated arguments per case; rows: up to 300 lists, many of them nearly equal, de-duplicated, padded, filtered. Non-trivial: at least two sublists, one of them '
        'with two or more elements.')

OPS = ['sum', 'logsumexp', 'max', 'min', 'argmax', 'normalize', 'norm_prob', 'add', 'sort', 'sum_grad', 'lse_grad',
       'norm_grad']


@st.composite
def case(draw):
    op = draw(st.sampled_from(OPS))
    axes = draw(st.sampled_from([2, 2, 2, 3, 3, 4]))
    dt = draw(st.sampled_from(['i', 'f', 'd'] if op in ('sum', 'max', 'min', 'argmax', 'add', 'sort') else ['f', 'd']))
    lo = 1 if op == 'norm_prob' else -24
    scale = draw(st.sampled_from([1, 1, 1, 30, 400])) if op != 'norm_prob' else 1
    leaf = st.integers(lo, 24).map(lambda x: x * scale)
    L = draw(gen.nested(axes, 5, leaf))
    return {'op': op, 'axes': axes, 'dt': dt, 'L': L, 'a': draw(st.integers(-40, 40)),
            'none': draw(st.booleans()), 'flag': draw(st.booleans()),
            'seed': draw(st.integers(0, 1000)), 'stride': draw(st.integers(0, 2))}


def weights(n, seed, dt, stride):
    """Output gradients: 0: expanded scalar (stride 0), 1: dense, 2: strided."""
    import random
    r = random.Random(seed)
    if stride == 0:
        v = r.randint(-16, 16) / 8
        return [v] * n, torch.tensor(v, dtype=dt).expand(n)
    w = [r.randint(-16, 16) / 8 for _ in range(n)]
    if stride == 1:
        return w, torch.tensor(w, dtype=dt)
    t = torch.zeros(n, 3, dtype=dt)
    t[:, 1] = torch.tensor(w, dtype=dt)
    return w, t[:, 1]


def run(c):
    op, axes, dt, dtype = c['op'], c['axes'], c['dt'], R.DT[c['dt']]
    L = c['L'] if dt == 'i' else R.map_last(c['L'], axes, lambda x: [v / 8.0 for v in x])
    sub = R.level(L, axes - 2)                 # the innermost lists
    flat = R.level(L, axes - 1)
    a = c['a'] if dt == 'i' else c['a'] / 8.0
    init = None if c['none'] else a
    r = R.mk(L, axes, dt)
    tol = dict(rtol=1e-5, atol=1e-4) if dt == 'f' else dict(rtol=1e-9, atol=1e-9)
    shape_ok = lambda x: (check_eq(x.tolist(), None) if False else None)
    if op == 'sum':
        got = r.sum() if init is None else r.sum(initial_value=init)
        check_eq(got.dtype, dtype, 'sum dtype')
        check_all_close(got.tolist(), [sum(x) + (init or 0) for x in sub], 'sum', **tol)
    elif op == 'logsumexp':
        got = r.logsumexp()
        check_eq(got.dtype, dtype, 'dtype')
        check_all_close(got.tolist(), [logsum(x) for x in sub], 'logsumexp', **tol)
        got = r.logsumexp(initial_value=a).tolist()
        for g, x in zip(got, sub):
            if not x:
                check(close(g, a, 1e-6, 1e-6), 'logsumexp of an empty list', g, a)
    elif op in ('max', 'min'):
        f = max if op == 'max' else min
        got = getattr(r, op)() if init is None else getattr(r, op)(initial_value=init)
        check_eq(got.dtype, dtype, 'dtype')
        ii = torch.iinfo(dtype) if dt == 'i' else torch.finfo(dtype)
        base = (ii.min if op == 'max' else ii.max) if init is None else init
        check_eq(got.tolist(), [f(x + [base]) for x in sub], op, init)
    elif op == 'argmax':
        got = r.argmax() if init is None else r.argmax(initial_value=init)
        check_eq(got.dtype, torch.int32, 'dtype')
        sp = R.splits(L, axes - 1)
        got = got.tolist()
        check_eq(len(got), len(sub), 'argmax length')
        for i, (g, x) in enumerate(zip(got, sub)):
            if not x or (init is not None and max(x) < init):
                check_eq(g, -1, 'argmax of', x, init)
            elif init is not None and max(x) == init and g == -1:
                check(False, 'argmax -1 though an element reaches the initial value', x, init)
            else:
                check(sp[i] <= g < sp[i + 1], 'argmax index', g, 'outside', sp[i], sp[i + 1])
                check_eq(flat[g], max(x), 'argmax value of', x, init)
    elif op == 'normalize':
        got = r.normalize(use_log=True)
        check_eq((got.num_axes, got.dtype), (axes, dtype))
        exp = R.map_last(L, axes, lambda x: [v - logsum(x) for v in x])
        check(got.shape == r.shape, 'normalize shape')
        check_all_close(got.values.tolist(), R.level(exp, axes - 1), 'normalize log', **tol)
    elif op == 'norm_prob':
        got = r.normalize(use_log=False)
        exp = R.map_last(L, axes, lambda x: [v / sum(x) for v in x])
        check(got.shape == r.shape, 'normalize shape')
        check_all_close(got.values.tolist(), R.level(exp, axes - 1), 'normalize', rtol=1e-5, atol=1e-6)
    elif op == 'add':
        import random
        rr = random.Random(c['seed'])
        v = [rr.randint(-9, 9) if dt == 'i' else rr.randint(-9, 9) / 8 for _ in sub]
        alpha = c['a'] % 7 - 3
        got = r.add(torch.tensor(v, dtype=dtype), alpha)
        check(got.shape == r.shape, 'add shape')
        check_all_close(got.values.tolist(), [y + alpha * w for x, w in zip(sub, v) for y in x], 'add', **tol)
    elif op == 'sort':
        before = r.clone()
        n2o = r.sort_(descending=c['none'], need_new2old_indexes=c['flag'])
        exp = R.map_last(L, axes, lambda x: sorted(x, reverse=c['none']))
        check_eq(r.tolist(), exp, 'sort_', 'descending' if c['none'] else 'ascending')
        if c['flag']:
            m = n2o.tolist()
            check_eq(sorted(m), list(range(len(flat))), 'new2old is not a permutation')
            check_eq(before.values[n2o.long()].tolist(), r.values.tolist(), 'new2old values')
            sp = R.splits(L, axes - 1)
            for i in range(len(sub)):
                check_eq(sorted(m[sp[i]:sp[i + 1]]), list(range(sp[i], sp[i + 1])), 'new2old crosses sublists')
        else:
            check(n2o is None, 'new2old given although not wanted')
        check_eq(before.tolist(), L, 'a clone changed')
    else:   # gradients
        v = torch.tensor(flat, dtype=dtype).requires_grad_(True)
        r = k2.RaggedTensor(R.mk_shape(L, axes), v)
        if op == 'norm_grad':
            w, t = weights(len(flat), c['seed'], dtype, c['stride'])
            out = r.normalize(use_log=True).values
            if not len(flat):
                return False, [op, 'empty']
            out.backward(t)
            sp, exp = R.splits(L, axes - 1), []
            for i, x in enumerate(sub):
                g = w[sp[i]:sp[i + 1]]
                z = logsum(x)
                exp += [gi - math.exp(xi - z) * sum(g) for gi, xi in zip(g, x)]
            check_all_close(v.grad.tolist(), exp, 'normalize gradient', rtol=1e-4, atol=1e-4)
        else:
            w, t = weights(len(sub), c['seed'], dtype, c['stride'])
            if not len(flat):
                return False, [op, 'empty']
            out = r.sum() if op == 'sum_grad' else r.logsumexp()
            check_all_close(out.detach().tolist(), [sum(x) if op == 'sum_grad' else logsum(x) for x in sub], op, **tol)
            out.backward(t)
            exp = []
            for x, g in zip(sub, w):
                z = logsum(x)
                exp += [g if op == 'sum_grad' else g * math.exp(y - z) for y in x]
            check_all_close(v.grad.tolist(), exp, op, rtol=1e-4, atol=1e-4)
        check_eq(r.tolist(), L, 'input changed')
        return len(sub) >= 2 and max(map(len, sub)) >= 2, [op]
    if op != 'sort':
        check_eq(r.tolist(), L, 'input changed')
    return len(sub) >= 2 and max(map(len, sub)) >= 2, [op]


# ---------------------------------------------------------------------- large sublists
@st.composite
def large(draw):
    return {'rows': draw(st.lists(st.sampled_from([0, 1, 2, 7, 33, 64, 257, 1000]), min_size=1, max_size=8)),
            'seed': draw(st.integers(0, 10**6)), 'ties': draw(st.booleans()), 'desc': draw(st.booleans())}


def run_large(c):
    import random
    r = random.Random(c['seed'])
    hi = 5 if c['ties'] else 10**6
    L = [[r.randint(-hi, hi) for _ in range(n)] for n in c['rows']]
    t = R.mk(L, 2, 'i')
    n2o = t.clone().sort_(c['desc'], True).tolist()
    x = t.clone()
    x.sort_(c['desc'])
    check_eq(x.tolist(), [sorted(y, reverse=c['desc']) for y in L], 'sort_')
    check_eq([R.level(L, 1)[i] for i in n2o], R.level(x.tolist(), 1), 'new2old')
    check_eq(sorted(n2o), list(range(len(n2o))))
    check_eq(t.max().tolist(), [max(y, default=-2**31) for y in L], 'max')
    check_eq(t.min().tolist(), [min(y, default=2**31 - 1) for y in L], 'min')
    check_eq(t.sum().tolist(), [sum(y) for y in L], 'sum')
    F = [[v / 64 / (hi / 400 + 1) for v in y] for y in L]
    f = R.mk(F, 2, 'd')
    check_all_close(f.logsumexp().tolist(), [logsum(y) for y in F], 'logsumexp', rtol=1e-9, atol=1e-9)
    u = t.unique(True, True)
    check_eq(sorted(map(tuple, u[0].tolist())), sorted(set(map(tuple, L))), 'unique')
    return sum(n > 1 for n in c['rows']) > 1, ['large']


# ---------------------------------------------------------------------- rows: unique, pad, remove
RANGES = [(0, 1), (0, 3), (0, 9), (0, 60), (-3, 3), (-60, 60), (0, 2000), (1 << 20, (1 << 20) + 40), (-2**31, 2**31 - 1), (100, 108)]


@st.composite
def rows(draw):
    op = draw(st.sampled_from(['unique', 'unique', 'unique', 'pad', 'remove']))
    return {'op': op, 'rg': draw(st.integers(0, len(RANGES) - 1)), 'len': draw(st.sampled_from([1, 2, 2, 3, 4, 6, 12])),
            'n': draw(st.sampled_from([0, 1, 3, 8, 40, 300])), 'near': draw(st.booleans()), 'groups': draw(st.integers(0, 3)), 'lead': draw(st.integers(0, 3)),
            'seed': draw(st.integers(0, 10**6)), 'dt': draw(st.sampled_from('ifd')), 'rep': draw(st.booleans()), 'n2o': draw(st.booleans()), 'v': draw(st.integers(-5, 70))}


def run_rows(c):
    import random
    r = random.Random(c['seed'])
    lo, hi = RANGES[c['rg']]
    L = []
    fix = r.randint(0, c['len']) if r.random() < .5 else None
    for _ in range(c['n']):
        n = r.randint(0, c['len']) if fix is None else fix
        if L and r.random() < .25:
            x = list(r.choice(L))
        else:
            x = [r.randint(lo, hi) for _ in range(n)]
        if c['near'] and L:      # a list like an earlier one
            x = list(r.choice(L))
            k = r.randrange(5)
            if k == 0 and len(x) > 1:
                i = r.randrange(len(x) - 1)
                x[i], x[i + 1] = x[i + 1], x[i]
            elif k == 1 and x:
                x[r.randrange(len(x))] = r.randint(lo, hi)
            elif k == 2:
                x = [r.choice([0, 0, lo, hi])] + x
            elif k == 3:
                x = x[1:]
            elif k == 4:
                x = x + [r.choice([0, lo])]
        L.append(x)
    op = c['op']
    if op == 'unique':
        if c['groups'] == 0:
            t, G = R.mk(L, 2, 'i'), [L]
        else:
            cuts = sorted(r.randint(0, len(L)) for _ in range(c['groups']))
            G = [L[a:b] for a, b in zip([0] + cuts, cuts + [len(L)])]
            t = R.mk(G, 3, 'i')
        u, nr, n2o = t.unique(need_num_repeats=c['rep'], need_new2old_indexes=c['n2o'])
        U = [u.tolist()] if c['groups'] == 0 else u.tolist()
        check_eq((u.num_axes, u.dtype, len(U)), (t.num_axes, torch.int32, len(G)), 'unique')
        for g, x in zip(G, U):
            check_eq(sorted(map(tuple, x)), sorted(set(map(tuple, g))), 'distinct lists')
        check((nr is not None) == c['rep'] and (n2o is not None) == c['n2o'], 'extra results')
        if c['rep']:
            cnt = []
            for g in G:
                d = {}
                for x in g:
                    d[tuple(x)] = d.get(tuple(x), 0) + 1
                cnt.append(d)
            check_eq(nr.tolist(), [[d[tuple(x)] for x in xs] for d, xs in zip(cnt, U)], 'num_repeats')
        if c['n2o']:
            m = n2o.tolist()
            k = o = 0
            for g, xs in zip(G, U):
                for x in xs:
                    check(o <= m[k] < o + len(g), 'representative of another group', m)
                    check_eq(L[m[k]], x, 'representative')
                    k += 1
                o += len(g)
            check_eq(k, len(m), 'representatives')
        check_eq(t.tolist(), L if c['groups'] == 0 else G, 'input changed')
        return len(L) > 2, ['unique', 'near' if c['near'] else 'random']
    dt = c['dt']
    if dt != 'i':
        L = [[float(v % 4096) / 8 for v in x] for x in L]
    v = c['v'] if dt == 'i' else c['v'] / 8
    if L and any(L) and r.random() < .5:
        v = r.choice([y for x in L for y in x])
    t = R.mk(L, 2, dt)
    if op == 'pad':
        for mode in ('constant', 'replicate'):
            for left in (False, True):
                if not L:
                    continue
                got = t.pad(mode=mode, padding_value=v, pad_left=left)
                check_eq(got.dtype, R.DT[dt], 'dtype')
                check_eq(got.tolist(), R.pad2(L, mode, v, left), 'pad', mode, 'left' if left else 'right')
    else:
        G, axes = (L, 2) if c['groups'] == 0 else ([L[:c['lead']], [], L[c['lead']:]], 3)
        t = R.mk(G, axes, dt)
        for name, keep in (('eq', lambda y: y != v), ('leq', lambda y: y > v)):
            got = getattr(t, 'remove_values_' + name)(v)
            check_eq((got.dtype, got.num_axes), (R.DT[dt], axes), 'type')
            check_eq(got.tolist(), R.map_last(G, axes, lambda x: [y for y in x if keep(y)]), 'remove_values_' + name, v)
        check_eq(t.tolist(), G, 'input changed')
    return len(L) > 2, [op]


SUBS = [Sub('ops', case, run, 14000), Sub('large', large, run_large, 800), Sub('rows', rows, run_rows, 6000)]
