"""R03: gather and scatter-add primitives follow their index semantics exactly."""
import torch
import k2
import k2.sparse
import k2.ragged as k2r
from hypothesis import strategies as st

from vlib import fsa as F, gen, ops, ragged as R
from vlib.core import Sub, check, check_eq, check_all_close

TECHNIQUE = 'index_select/index_add/ragged index/index_and_sum/compose_arc_maps on generated index sets and strides against Python loops'
NOTE = 'All supported dtypes, contiguous and strided sources, -1 entries, repeated and empty indexes; values and gradients.'
RULE = ('One primitive per case with a source of 0-8 rows (1-D or 2-D, contiguous, strided or transposed), an index '
        'array of 0-10 entries with repeats and -1; fsas: vectors with different sets of attributes concatenated, members selected, gradients. Non-trivial: the index has a repeated entry and a -1, or three or '
        'more entries.')

OPS = ['select1', 'select2', 'add1', 'add2', 'grad1', 'grad2', 'ragged', 'ragged3', 'isum', 'isum_grad', 'compose',
       'simple', 'sparse', 'abs']
DT = [torch.int32, torch.float32, torch.float64, torch.int64]


def case():
    return st.fixed_dictionaries({
        'op': st.sampled_from(OPS), 'n': st.integers(0, 8), 'cols': st.integers(1, 4),
        'idx': st.lists(st.integers(-1, 7), max_size=10), 'dt': st.integers(0, 3), 'seed': st.integers(0, 999),
        'stride': st.integers(0, 3), 'default': st.integers(-3, 3), 'cuts': st.lists(st.integers(0, 10), max_size=4)})


def strided(t, mode):
    """The same tensor with another memory layout."""
    if mode == 0:
        return t.contiguous()
    if t.dim() == 1:
        z = torch.zeros(t.shape[0], mode + 1, dtype=t.dtype)
        z[:, mode] = t
        return z[:, mode]
    if mode == 1:
        return t.t().contiguous().t()
    if mode == 2:
        z = torch.zeros(t.shape[0], t.shape[1] + 2, dtype=t.dtype)
        z[:, 1:-1] = t
        return z[:, 1:-1]
    z = torch.zeros(2 * t.shape[0], t.shape[1], dtype=t.dtype)
    z[::2] = t
    return z[::2]


def run(c):
    import random
    r = random.Random(c['seed'])
    op, n, cols = c['op'], c['n'], c['cols']
    if op in ('select2', 'grad2'):      # torch gives an empty matrix whatever strides it likes
        n = max(n, 1)
    idx = [i if i < n else (i % n if n else -1) for i in c['idx']]
    ix = torch.tensor(idx, dtype=torch.int32)
    dt = DT[c['dt']]
    nz = lambda: r.randint(-9, 9)
    src = [nz() for _ in range(n)]
    src2 = [[nz() for _ in range(cols)] for _ in range(n)]
    m = len(idx)
    if op == 'select1':
        s = strided(torch.tensor(src, dtype=dt), c['stride'])
        got = k2.index_select(s, ix, c['default'])
        check_eq(got.dtype, dt)
        check_eq(got.tolist(), [src[i] if i >= 0 else c['default'] for i in idx], op)
        check_eq(s.tolist(), src, 'src changed')
        check_eq(k2.index_select(s, ix).tolist(), [src[i] if i >= 0 else 0 for i in idx], op)
    elif op == 'select2':
        s = strided(torch.tensor(src2, dtype=dt).reshape(n, cols), [0, 0, 2, 3][c['stride']])
        got = k2.index_select(s, ix)    # (a 2-D src must have a column stride of 1)
        check_eq((got.dtype, tuple(got.shape)), (dt, (m, cols)))
        check_eq(got.tolist(), [src2[i] if i >= 0 else [0] * cols for i in idx], op)
    elif op in ('add1', 'add2'):
        if dt == torch.int64:
            dt = torch.int32
        base = src if op == 'add1' else src2
        d = torch.tensor(base, dtype=dt).reshape(n, *(() if op == 'add1' else (cols,)))
        d = strided(d, c['stride'])
        val = [nz() if op == 'add1' else [nz() for _ in range(cols)] for _ in range(m)]
        v = strided(torch.tensor(val, dtype=dt).reshape(m, *(() if op == 'add1' else (cols,))), (c['seed'] // 7) % 4)
        k2.index_add(ix, v, d)
        exp = [x if op == 'add1' else list(x) for x in base]
        for i, x in zip(idx, val):
            if i >= 0:
                if op == 'add1':
                    exp[i] += x
                else:
                    exp[i] = [p + q for p, q in zip(exp[i], x)]
        check_eq(d.tolist(), exp, op)
        check_eq(v.tolist(), val, 'value changed')
    elif op in ('grad1', 'grad2'):
        fdt = [torch.float32, torch.float64][c['dt'] % 2]
        base = src if op == 'grad1' else src2
        s = torch.tensor(base, dtype=fdt).reshape(n, *(() if op == 'grad1' else (cols,))).requires_grad_(True)
        out = k2.index_select(strided(s, c['stride']) if c['stride'] == 0 else s * 1, ix)
        w = [nz() if op == 'grad1' else [nz() for _ in range(cols)] for _ in range(m)]
        wt = strided(torch.tensor(w, dtype=fdt).reshape(out.shape), c['stride'])
        out.backward(wt)
        exp = [0.0 if op == 'grad1' else [0.0] * cols for _ in range(n)]
        for i, x in zip(idx, w):
            if i >= 0:
                exp[i] = exp[i] + x if op == 'grad1' else [p + q for p, q in zip(exp[i], x)]
        check_eq(s.grad.tolist(), exp, op)
    elif op in ('ragged', 'ragged3', 'isum', 'isum_grad', 'simple'):
        cuts = sorted(min(x, m) for x in c['cuts'])
        L = [idx[a:b] for a, b in zip([0] + cuts, cuts + [m])]
        if op in ('ragged', 'ragged3'):
            if dt == torch.int64:
                dt = torch.int32
            s = strided(torch.tensor(src, dtype=dt), 0)
            axes = 2 if op == 'ragged' else 3
            LL = L if axes == 2 else [L[:1], [], L[1:]]
            got = k2r.index(s, R.mk(LL, axes), c['default'])
            check_eq(got.dtype, dt)
            check_eq(got.tolist(), R.map_last(LL, axes, lambda x: [src[i] if i >= 0 else c['default'] for i in x]), op)
            got = k2r.index(s, R.mk(LL, axes))
            check_eq(got.tolist(), R.map_last(LL, axes, lambda x: [src[i] if i >= 0 else 0 for i in x]), op)
        elif op == 'simple':
            # at most one non-zero per list
            fdt = [torch.int32, torch.float32][c['dt'] % 2]
            s = list(src)
            keep = []
            for row in L:
                row = [i for i in row if i >= 0]
                nzs = [i for i in row if s[i] != 0]
                keep.append([i for i in row if s[i] == 0 or i == nzs[0]][:len(row)] if nzs else row)
                if nzs:
                    first = keep[-1].index(nzs[0])
                    keep[-1] = [i for k, i in enumerate(keep[-1]) if s[i] == 0 or k == first]
            t = strided(torch.tensor(s, dtype=fdt), c['stride'])
            got = k2.simple_ragged_index_select(t, R.mk(keep, 2))
            check_eq(got.tolist(), [sum(s[i] for i in row) for row in keep], op)
        else:
            fdt = [torch.float32, torch.float64][c['dt'] % 2]
            s = torch.tensor(src, dtype=fdt).requires_grad_(True)
            out = k2r.index_and_sum(s, R.mk(L, 2))
            check_eq(out.dtype, fdt)
            check_eq(out.tolist(), [float(sum(src[i] for i in x if i >= 0)) for x in L], op)
            if op == 'isum_grad':
                w = [nz() for _ in L]
                out.backward(strided(torch.tensor(w, dtype=fdt), c['stride']))
                exp = [0.0] * n
                for row, x in zip(L, w):
                    for i in row:
                        if i >= 0:
                            exp[i] += x
                check_eq(s.grad.tolist(), exp, op)
    elif op == 'compose':
        one = [r.randint(-1, 5) for _ in range(n)]
        got = k2.compose_arc_maps(torch.tensor(one, dtype=torch.int32), ix)
        check_eq(got.tolist(), [one[i] if i >= 0 else -1 for i in idx], op)
    elif op == 'sparse':
        rows = [r.randint(0, 4) for _ in range(m)]
        cc = [r.randint(-1, 4) for _ in range(m)]
        vals = [nz() / 2 for _ in range(m)]
        mc = r.randint(0, 2)
        t = k2.create_sparse(torch.tensor(rows), torch.tensor(cc), torch.tensor(vals, dtype=torch.float64),
                             size=(5, 5), min_col_index=mc).to_dense().tolist()
        exp = [[0.0] * 5 for _ in range(5)]
        for a, b, v in zip(rows, cc, vals):
            if b >= mc:
                exp[a][b] += v
        check_eq(t, exp, op)
    elif op == 'abs':
        rows = [r.randint(0, 4) for _ in range(m)]
        cc = [r.randint(0, 4) for _ in range(m)]
        vals = torch.tensor([nz() / 2 for _ in range(m)], dtype=torch.float64).requires_grad_(True)
        t = torch.sparse_coo_tensor(torch.tensor([rows, cc]).reshape(2, m), vals, size=(5, 5)).coalesce()
        out = k2.sparse.abs(t)
        check_eq(out.to_dense().tolist(), t.to_dense().abs().tolist(), op)
        if m:
            torch.sparse.sum(out).backward()
            d = t.to_dense().tolist()
            sg = lambda x: (x > 0) - (x < 0)
            check_eq(vals.grad.tolist(), [float(sg(d[a][b])) for a, b in zip(rows, cc)], 'abs gradient')
    return m >= 3 or (-1 in idx and len(set(idx)) < m), [op]


# ---------------------------------------------------------------------- bigger index_add / select
@st.composite
def big(draw):
    return {'n': draw(st.sampled_from([1, 17, 256, 1500])), 'm': draw(st.sampled_from([0, 5, 300, 3000])),
            'cols': draw(st.sampled_from([1, 3, 40])), 'seed': draw(st.integers(0, 10**6)), 'dt': draw(st.integers(0, 2))}


def run_big(c):
    g = torch.Generator().manual_seed(c['seed'])
    dt = DT[c['dt']]
    n, m, cols = c['n'], c['m'], c['cols']
    idx = torch.randint(-1, n, (m,), generator=g, dtype=torch.int32)
    src = torch.randint(-50, 50, (n, cols), generator=g).to(dt)
    val = torch.randint(-50, 50, (m, cols), generator=g).to(dt)
    ok = idx >= 0
    exp = torch.zeros(m, cols, dtype=dt)
    exp[ok] = src[idx[ok].long()]
    check(torch.equal(k2.index_select(src, idx), exp), 'select2')
    e1 = torch.full((m,), 7, dtype=dt)
    e1[ok] = src[:, 0][idx[ok].long()]
    check(torch.equal(k2.index_select(src[:, 0], idx, 7), e1), 'select1')
    d = src.clone()
    k2.index_add(idx, val, d)
    e = src.clone()
    e.index_add_(0, idx[ok].long(), val[ok])
    check(torch.equal(d, e), 'add2')
    d = src[:, 0].clone()
    k2.index_add(idx, val[:, cols - 1], d)
    e = src[:, 0].clone()
    e.index_add_(0, idx[ok].long(), val[ok][:, cols - 1])
    check(torch.equal(d, e), 'add1')
    return m > 2, ['big']


# ---------------------------------------------------------------------- whole FSAs
VK = ['f', 'd', 'i', 'l', 'rag', 'two', 'obj']


@st.composite
def fsas(draw):
    src = []
    for _ in range(draw(st.integers(1, 3))):
        src.append({'fs': draw(gen.fsa_vec(1, 4, max_states=4, max_arcs=6, acyclic=False)), 'kinds': draw(st.lists(st.sampled_from(VK), max_size=5, unique=True)),
                    'fill': draw(st.booleans()), 'aux': draw(st.sampled_from([None, 'plain', 'plain', 'ragged'])), 'grad': draw(st.integers(0, 3)) > 0,
                    'name': draw(st.sampled_from([None, 'x', 'y']))})
    if draw(st.booleans()):
        for s in src[1:]:
            s['kinds'] = src[0]['kinds']
    if len({s['aux'] for s in src} - {None}) > 1:      # attributes of one name are of one type
        for s in src:
            s['aux'] = 'plain'
    return {'src': src, 'idx': draw(st.lists(st.integers(0, 11), max_size=6)), 'seed': draw(st.integers(0, 10**6)), 'again': draw(st.booleans())}


def run_fsas(c):
    vecs, leaves, parts = [], [], []
    for k, s in enumerate(c['src']):
        f, leaf = ops.build(s['fs'], {'kinds': s['kinds'], 'seed': c['seed'] + k, 'fill': s['fill']}, aux=s['aux'], grad=s['grad'])
        if s['name']:
            f.name = s['name']
        vecs.append(f)
        leaves.append(leaf)
        parts.append(ops.explode(f))
    kinds = [{k for k, _ in f.named_tensor_attr(include_scores=False)} for f in vecs]
    common = set.intersection(*kinds)
    other = {}
    for f in vecs:
        for k, v in f.named_non_tensor_attr():
            other.setdefault(k, v)
    out = k2.cat(vecs)
    got = ops.explode(out)
    want = [p for ps in parts for p in ps]
    check_eq(len(got), len(want), 'members')

    def same(g, w, *what):
        check_eq((g['n'], g['arcs'], g['scores']), (w['n'], w['arcs'], w['scores']), 'machine', *what)
        for a in common:
            check_eq(g['attrs'].get(a), w['attrs'][a], 'attribute', a, *what)
        check_eq(set(g['attrs']), common, 'attributes', *what)

    def dtypes(o, *what):
        for k, v in vecs[0].named_tensor_attr(include_scores=False):
            if k in common:
                check_eq(getattr(o, k).dtype, v.dtype, 'type of', k, *what)
        check_eq({k: v for k, v in o.named_non_tensor_attr()}, other, 'other attributes', *what)
    for i, (g, w) in enumerate(zip(got, want)):
        same(g, w, 'cat', i)
    dtypes(out, 'cat')
    n = len(want)
    ids = [i % n for i in c['idx']]
    sel = k2.index_fsa(out, torch.tensor(ids, dtype=torch.int32))
    if c['again'] and ids:
        jj = [i % len(ids) for i in reversed(c['idx'])][:4]
        sel = k2.index_fsa(sel, torch.tensor(jj, dtype=torch.int32))
        ids = [ids[j] for j in jj]
    got = ops.explode(sel)
    check_eq(len(got), len(ids), 'selected members')
    for g, i in zip(got, ids):
        same(g, want[i], 'selected', i)
    dtypes(sel, 'selected')
    off = [0]
    for w in want:
        off.append(off[-1] + len(w['arcs']))
    grads = [0.0] * off[-1]
    k = 1
    for i in ids:
        for j in range(off[i], off[i + 1]):
            grads[j] += k
            k += 1
    if sel.requires_grad and sel.num_arcs:
        (sel.scores * torch.arange(1, k, dtype=torch.float32)).sum().backward()
        o = 0
        for leaf, s in zip(leaves, c['src']):
            m = leaf.numel()
            if s['grad']:
                check_eq((leaf.grad if leaf.grad is not None else torch.zeros(m)).tolist(), grads[o:o + m], 'gradient')
            o += m
    else:
        check(not any(s['grad'] for s in c['src']) or not sel.num_arcs, 'requires_grad lost')
    for f, ps in zip(vecs, parts):
        check_eq(ops.explode(f), ps, 'input changed')
    return n > 1 and len(ids) > 1, ['cat', 'common' if len(common) > 1 else 'little in common']


SUBS = [Sub('ops', case, run, 14000), Sub('big', big, run_big, 1200), Sub('fsas', fsas, run_fsas, 1500)]
