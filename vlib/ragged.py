"""Ragged tensors as nested lists with an explicit number of axes."""
import torch
import k2
import k2.ragged as k2r

DT = {'i': torch.int32, 'f': torch.float32, 'd': torch.float64}


def level(L, axis):
    """Elements at `axis` (0: the top list's elements) in order."""
    xs = L
    for _ in range(axis):
        xs = [y for x in xs for y in x]
    return xs


def splits(L, axis):
    """row_splits(axis), axis >= 1."""
    s = [0]
    for x in level(L, axis - 1):
        s.append(s[-1] + len(x))
    return s


def row_ids(L, axis):
    return [i for i, x in enumerate(level(L, axis - 1)) for _ in x]


def mk_shape(L, axes):
    sh = None
    for a in range(1, axes):
        x = k2r.create_ragged_shape2(row_splits=torch.tensor(splits(L, a), dtype=torch.int32))
        sh = x if sh is None else sh.compose(x)
    return sh


def mk(L, axes, dt='i'):
    v = torch.tensor(level(L, axes - 1), dtype=DT[dt])
    return k2.RaggedTensor(mk_shape(L, axes), v)


def regroup(flat, L, axis):
    """flat elements of level `axis` (1..) regrouped by the shape of L above."""
    for a in range(axis, 0, -1):
        s = splits(L, a)
        flat = [flat[s[i]:s[i + 1]] for i in range(len(s) - 1)]
    return flat


def map_last(L, axes, fn):
    """Apply fn to every innermost list."""
    if axes == 1:
        return fn(L)
    return [map_last(x, axes - 1, fn) for x in L]


def copy(L, axes):
    return [copy(x, axes - 1) for x in L] if axes > 1 else list(L)


def simple_str(L, axes):
    def go(x, d):
        if d == 0:
            return ('%g' % x)
        return '[' + ', '.join(go(y, d - 1) for y in x) + ']'
    return go(L, axes)


def depth_seen(L):
    """Deepest list nesting visible in L (L itself counts 1)."""
    return 1 + max([depth_seen(x) for x in L if isinstance(x, list)], default=0)


def pad2(L, mode, v, left):
    w = max([len(x) for x in L], default=0)
    out = []
    for x in L:
        fill = v if mode == 'constant' or not x else (x[0] if left else x[-1])
        p = [fill] * (w - len(x))
        out.append(p + x if left else x + p)
    return out
