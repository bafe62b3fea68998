"""R01: ragged tensors and shapes behave as nested lists under structural operations."""
import pickle
from collections import Counter

import torch
import k2
import k2.ragged as k2r
from hypothesis import strategies as st

from vlib import gen, ragged as R
from vlib.core import Sub, check, check_eq, raises

TECHNIQUE = 'model-based histories of structural operations on a pool of ragged tensors against nested Python lists'
NOTE = 'After every step the new object and all earlier ones are compared with their models (values, splits, ids, sizes, text).'
RULE = ('Histories of 1-10 operations (index by int/slice/tensor/ragged, index on axis k, arange, remove_axis, cat, '
        'clone, to, pickle, text round-trip, unique, remove_values, pad, shape compose/get_layer/index) on a pool that '
        'starts with 1-3 generated ragged tensors of 2-4 axes, empty lists everywhere, dtypes int32/float32/float64. '
        'Non-trivial: at least two operations applied to tensors having an element.')


@st.composite
def pool_item(draw):
    axes = draw(st.sampled_from([2, 2, 3, 3, 4]))
    dt = draw(st.sampled_from(['i', 'i', 'f', 'd']))
    return [axes, dt, draw(gen.nested(axes, 4, st.integers(-2, 4)))]


OPS = ['getitem', 'slice', 'index0', 'indexk', 'ragged_index', 'arange', 'remove_axis', 'cat0', 'cat1',
       'clone', 'to', 'pickle', 'text', 'list', 'unique', 'rm_eq', 'rm_leq', 'pad', 'shape_index',
       'shape_layer', 'shape_compose', 'eq', 'tensor', 'values', 'regular', 'negidx']


def history():
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 99), st.integers(0, 99),
                   st.lists(st.integers(0, 99), max_size=6), st.integers(0, 7))
    return st.fixed_dictionaries({
        'pool': st.lists(pool_item(), min_size=1, max_size=3),
        'ops': st.lists(op, min_size=2, max_size=12)})


def verify(r, L, axes, dt, what):
    check_eq(r.num_axes, axes, what, 'num_axes')
    check_eq(r.dtype, R.DT[dt], what, 'dtype')
    check_eq(r.tolist(), L, what, 'tolist')
    check_eq(r.dim0, len(L), what, 'dim0')
    flat = R.level(L, axes - 1)
    check_eq(r.numel(), len(flat), what, 'numel')
    check_eq(r.values.tolist(), flat, what, 'values')
    check_eq(r.to_str_simple(), f'RaggedTensor({R.simple_str(L, axes)}, dtype={R.DT[dt]})', what, 'to_str_simple')
    check_eq(''.join(str(r).split()), ''.join(r.to_str_simple().split()), what, 'str')
    verify_shape(r.shape, L, axes, what)
    for a in range(axes):
        check_eq(r.tot_size(a), len(R.level(L, a)), what, 'tot_size', a)


def verify_shape(s, L, axes, what):
    check_eq(s.num_axes, axes, what, 'shape.num_axes')
    check_eq(s.dim0, len(L), what, 'shape.dim0')
    tots = [len(R.level(L, a)) for a in range(axes)]
    check_eq(list(s.tot_sizes()), tots, what, 'tot_sizes')
    check_eq(s.numel(), tots[-1], what, 'shape.numel')
    for a in range(axes):
        check_eq(s.tot_size(a), tots[a], what, 'shape.tot_size', a)
    for a in range(1, axes):
        sp = R.splits(L, a)
        check_eq(s.row_splits(a).tolist(), sp, what, 'row_splits', a)
        check_eq(s.row_ids(a).tolist(), R.row_ids(L, a), what, 'row_ids', a)
        check_eq(s.max_size(a), max([y - x for x, y in zip(sp, sp[1:])], default=0), what, 'max_size', a)


def canon_group(rows):
    return Counter(tuple(x) for x in rows)


def run(case):
    pool = []
    for axes, dt, L in case['pool']:
        L = R.map_last(L, axes, lambda x: [float(v) / 2 if dt != 'i' else v for v in x])
        r = R.mk(L, axes, dt)
        verify(r, L, axes, dt, 'new')
        pool.append((r, L, axes, dt))
    useful = 0
    labels = set()
    for name, a, b, idx, c in case['ops']:
        r, L, axes, dt = pool[a % len(pool)]
        out = None      # (result, L, axes, dt)
        labels.add(name)
        if R.level(L, axes - 1):
            useful += 1
        if name == 'getitem':
            if L:
                i = b % len(L)
                x = r[i]
                if axes == 2:
                    check_eq(x.tolist(), L[i], 'r[i]')
                    check_eq(x.dtype, R.DT[dt])
                else:
                    out = (x, L[i], axes - 1, dt)
                    verify_shape(r.shape[i], L[i], axes - 1, 'shape[i]')
        elif name == 'slice':
            i, j = sorted((b % (len(L) + 1), c % (len(L) + 1)))
            out = (r[i:j], L[i:j], axes, dt)
        elif name == 'index0':
            if L:
                ii = [x % len(L) for x in idx]
                out = (r[torch.tensor(ii, dtype=torch.int32)], [L[i] for i in ii], axes, dt)
        elif name == 'negidx':
            ii = [x % (len(L) + 1) - 1 for x in idx]
            x, vi = r.index(torch.tensor(ii, dtype=torch.int32), axis=0, need_value_indexes=True)
            exp = [L[i] if i >= 0 else [] for i in ii]
            out = (x, exp, axes, dt)
            check_eq(r.values[vi.long()].tolist(), R.level(exp, axes - 1), 'value_indexes')
        elif name in ('indexk', 'shape_index'):
            k = b % axes
            el = R.level(L, k)
            if el:
                ii = [x % len(el) for x in idx]
                if k == 0:
                    exp = [L[i] for i in ii]
                else:
                    ids = R.row_ids(L, k)
                    ii.sort(key=lambda i: ids[i])      # parents must be in order
                    groups = [[] for _ in R.level(L, k - 1)]
                    for i in ii:
                        groups[ids[i]].append(el[i])
                    exp = R.regroup(groups, L, k - 1) if k > 1 else groups
                t = torch.tensor(ii, dtype=torch.int32)
                if name == 'indexk':
                    x, vi = r.index(t, axis=k, need_value_indexes=bool(c % 2))
                    check((vi is not None) == bool(c % 2), 'need_value_indexes')
                    if vi is not None:
                        check_eq(r.values[vi.long()].tolist(), R.level(exp, axes - 1), 'value_indexes')
                    out = (x, exp, axes, dt)
                else:
                    s, vi = r.shape.index(k, t, need_value_indexes=True)
                    verify_shape(s, exp, axes, 'shape.index')
                    check_eq(r.values[vi.long()].tolist(), R.level(exp, axes - 1), 'shape value_indexes')
        elif name == 'ragged_index':
            if L and axes <= 3:
                ix = [[x % len(L) for x in idx[:b % 4]], [], [x % len(L) for x in idx[b % 4:]]]
                out = (r.index(R.mk(ix, 2)), [[L[i] for i in g] for g in ix], axes + 1, dt)
        elif name == 'arange':
            k = b % (axes - 1)
            M = L
            for _ in range(k):
                M = [y for x in M for y in x]
            i, j = sorted((c % (len(M) + 1), (idx or [1])[0] % (len(M) + 1)))
            out = (r.arange(k, i, j), M[i:j], axes - k, dt)
        elif name == 'remove_axis':
            if axes > 2:
                k = b % axes
                if k == axes - 1:
                    # the last axis goes: one element stays per innermost list; only the shape is defined
                    s = r.shape.remove_axis(k)
                    M = R.regroup([0] * len(R.level(L, axes - 2)), L, axes - 2)
                    verify_shape(s, M, axes - 1, 'remove last axis')
                else:
                    if k == 0:
                        M = [y for x in L for y in x]
                    else:
                        lev = R.level(L, k - 1)
                        M = [[z for y in x for z in y] for x in lev]
                        M = R.regroup(M, L, k - 1) if k > 1 else M
                    out = (r.remove_axis(k), M, axes - 1, dt)
                    verify_shape(r.shape.remove_axis(k), M, axes - 1, 'shape.remove_axis')
        elif name in ('cat0', 'cat1'):
            cands = [p for p in pool if p[2] == axes and p[3] == dt]
            pick = [cands[x % len(cands)] for x in idx[:3]] + [(r, L, axes, dt)]
            if name == 'cat0':
                out = (k2r.cat([p[0] for p in pick], axis=0), [x for p in pick for x in p[1]], axes, dt)
            else:
                pick = [p for p in pick if len(p[1]) == len(L)]
                out = (k2r.cat([p[0] for p in pick], axis=1),
                       [[z for y in zz for z in y] for zz in zip(*[p[1] for p in pick])], axes, dt)
        elif name == 'clone':
            x = r.clone()
            if x.numel():
                x.values[0] = 77          # a clone shares nothing
            out = (r.clone(), L, axes, dt)
        elif name == 'to':
            d2 = 'ifd'[b % 3]
            M = L
            if dt != 'i' and d2 == 'i':
                M = R.map_last(L, axes, lambda x: [int(v) for v in x])
            elif d2 != 'i':
                M = R.map_last(L, axes, lambda x: [float(v) for v in x])
            out = (r.to(R.DT[d2]), M, axes, d2)
        elif name == 'pickle':
            if axes <= 3:
                out = (pickle.loads(pickle.dumps(r)), L, axes, dt)
        elif name == 'text':
            s = R.simple_str(L, axes)
            if c % 2:
                s = s.replace(',', ' ')
            if R.depth_seen(L) == axes:
                out = (k2.RaggedTensor(s, dtype=R.DT[dt]), L, axes, dt)
                if R.level(L, axes - 1):
                    r2 = k2.RaggedTensor(s)
                    ints = all(float(v).is_integer() for v in R.level(L, axes - 1))
                    check_eq(r2.dtype, torch.int32 if ints else torch.float32, 'inferred dtype', s)
                    check_eq(r2.tolist(), L, 'text', s)
                import re
                s2 = re.sub(r'-?\d+(\.\d+)?', 'x', s).replace(',', ' ')
                verify_shape(k2r.RaggedShape(s2), L, axes, 'shape from text')
        elif name == 'list':
            if R.depth_seen(L) == axes:
                out = (k2.RaggedTensor(R.copy(L, axes), dtype=R.DT[dt]), L, axes, dt)
                if R.level(L, axes - 1):
                    r2 = k2r.create_ragged_tensor(R.copy(L, axes))
                    check_eq(r2.tolist(), L, 'from list')
                    check_eq(r2.dtype, torch.int32 if dt == 'i' else torch.float32, 'inferred dtype')
        elif name == 'unique':
            if dt == 'i' and axes <= 3:
                u, nr, n2o = r.unique(need_num_repeats=bool(b % 2), need_new2old_indexes=bool(c % 2))
                ul = u.tolist()
                check_eq(u.num_axes, axes)
                G, U = ([L], [ul]) if axes == 2 else (L, ul)
                check_eq(len(U), len(G), 'unique groups')
                for g, ug in zip(G, U):
                    check_eq(sorted(map(tuple, ug)), sorted(set(map(tuple, g))), 'unique set')
                if b % 2:
                    check_eq(nr.num_axes, 2)
                    n = nr.tolist()
                    check_eq(len(n), len(G), 'num_repeats dim0')
                    for g, ug, ng in zip(G, U, n):
                        cnt = canon_group(g)
                        check_eq(ng, [cnt[tuple(x)] for x in ug], 'num_repeats')
                else:
                    check(nr is None, 'num_repeats not None')
                if c % 2:
                    lev = R.level(L, axes - 2)
                    check_eq([lev[i] for i in n2o.tolist()], R.level(ul, axes - 2), 'new2old')
                    if axes == 3:
                        ids = R.row_ids(L, 1)
                        check_eq([ids[i] for i in n2o.tolist()], R.row_ids(ul, 1), 'new2old groups')
                out = (u, ul, axes, dt)
        elif name in ('rm_eq', 'rm_leq'):
            t = (b % 7 - 3) if dt == 'i' else (b % 7 - 3) / 2
            if name == 'rm_eq':
                out = (r.remove_values_eq(t), R.map_last(L, axes, lambda x: [v for v in x if v != t]), axes, dt)
            else:
                out = (r.remove_values_leq(t), R.map_last(L, axes, lambda x: [v for v in x if v > t]), axes, dt)
        elif name == 'pad':
            if axes == 2 and L:
                v = (b % 9) - 4
                mode, left = ('constant', 'replicate')[c % 2], bool(c // 2 % 2)
                got = r.pad(mode=mode, padding_value=v, pad_left=left)
                check_eq(got.tolist(), R.pad2(L, mode, v, left), 'pad', mode, left)
                check_eq(got.dtype, R.DT[dt])
        elif name == 'shape_layer':
            k = b % (axes - 1)
            sp = R.splits(L, k + 1)
            check_eq(r.shape.get_layer(k).row_splits(1).tolist(), sp, 'get_layer')
        elif name == 'shape_compose':
            s = r.shape.get_layer(0)
            for k in range(1, axes - 1):
                s = s.compose(r.shape.get_layer(k))
            verify_shape(s, L, axes, 'compose')
            check(s == r.shape and not (s != r.shape), 'shape equality')
            out = (k2.RaggedTensor(s, r.values.clone()), L, axes, dt)
        elif name == 'eq':
            for r2, L2, ax2, dt2 in pool:
                if ax2 == axes and dt2 == dt:
                    check_eq(r == r2, L == L2, 'eq')
                    check_eq(r != r2, L != L2, 'ne')
                sh_eq = ax2 == axes and all(R.splits(L, k) == R.splits(L2, k) for k in range(1, axes))
                if ax2 == axes:
                    check_eq(r.shape == r2.shape, sh_eq, 'shape eq')
        elif name == 'tensor':
            sizes = [(b // 1) % 4, c % 4, len(idx) % 3][:2 + b % 2]
            n = 1
            for x in sizes:
                n *= x
            t = torch.arange(n, dtype=R.DT[dt]).reshape(*sizes)
            if len(sizes) > 1 and a % 2:
                t = t.transpose(0, 1)
            out = (k2.RaggedTensor(t), t.tolist(), t.dim(), dt)
        elif name == 'values':
            # row ids alone determine a two-level shape when its last rows are non-empty
            for k in range(1, axes):
                ids, sp = R.row_ids(L, k), R.splits(L, k)
                s = k2r.create_ragged_shape2(row_splits=torch.tensor(sp, dtype=torch.int32),
                                             row_ids=torch.tensor(ids, dtype=torch.int32))
                check_eq(s.row_splits(1).tolist(), sp)
                if ids:
                    s = k2r.create_ragged_shape2(row_ids=torch.tensor(ids, dtype=torch.int32))
                    check_eq(s.row_splits(1).tolist(), sp[:ids[-1] + 2], 'splits from ids')
        elif name == 'regular':
            d0, d1 = b % 5, c % 5
            s = k2r.regular_ragged_shape(d0, d1)
            verify_shape(s, [[0] * d1 for _ in range(d0)], 2, 'regular')
        if out is not None:
            verify(*out, f'after {name}')
            if len(pool) < 8 and out[2] <= 4:
                pool.append(out)
            for p in pool:
                verify(*p, f'pool after {name}')
    return useful >= 2, sorted(labels)


SUBS = [Sub('history', history, run, 7000)]
