"""Arc attributes for generated FSAs, as plain lists, and checks that they follow the arcs."""
import random

import torch
import k2
from hypothesis import strategies as st

from vlib.core import check, check_eq

ALL = ['f', 'd', 'i', 'l', 'aux', 'raux', 'rag', 'two', 'obj']


def spec(kinds=ALL, max_kinds=4):
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(kinds), unique=True, max_size=max_kinds),
        'fill': st.booleans(), 'seed': st.integers(0, 9999)})


def attach(fsa, s, uid=True):
    """Adds the attributes; returns {name: (kind, values, filler)}."""
    r = random.Random(s['seed'])
    labels = fsa.labels.tolist()
    m = len(labels)
    out = {}
    if uid:
        fsa.uid = torch.arange(m, dtype=torch.int32)
        fsa.uid_filler = -1
    for kind in sorted(s['kinds']):
        if kind == 'aux' and 'raux' in s['kinds']:
            continue
        if kind == 'f':
            v = [r.randint(-40, 40) / 8 for _ in range(m)]
            fsa.fa = torch.tensor(v, dtype=torch.float32)
            out['fa'] = ('num', v, 0)
        elif kind == 'd':
            v = [r.randint(-40, 40) / 8 for _ in range(m)]
            fsa.da = torch.tensor(v, dtype=torch.float64)
            out['da'] = ('num', v, 0)
        elif kind == 'i':
            v = [r.randint(0, 9) for _ in range(m)]
            fsa.ia = torch.tensor(v, dtype=torch.int32)
            if s['fill']:
                fsa.ia_filler = 77
            out['ia'] = ('int', v, 77 if s['fill'] else 0)
        elif kind == 'l':
            v = [r.randint(0, 2**40) for _ in range(m)]
            fsa.la = torch.tensor(v, dtype=torch.int64)
            out['la'] = ('int', v, 0)
        elif kind == 'aux':
            v = [-1 if l == -1 else r.randint(0, 4) for l in labels]
            fsa.aux_labels = torch.tensor(v, dtype=torch.int32)
            out['aux_labels'] = ('int', v, 0)
        elif kind in ('raux', 'rag'):
            v = [[r.randint(1, 5) for _ in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(m)]
            name = 'aux_labels' if kind == 'raux' else 'ra'
            setattr(fsa, name, rag(v))
            out[name] = ('rag', v, [])
        elif kind == 'two':
            v = [[r.randint(-40, 40) / 8, r.randint(-40, 40) / 8] for _ in range(m)]
            fsa.two = torch.tensor(v, dtype=torch.float32).reshape(m, 2)
            out['two'] = ('num2', v, [0, 0])
        elif kind == 'obj':
            fsa.meta = 'meta-%d' % s['seed']
    return out


def rag(v):
    from vlib import ragged as R
    return R.mk(v, 2, 'i')


def read(fsa, name):
    v = getattr(fsa, name)
    return v.tolist()


def check_unary(out, vals, s, amap, *what):
    """Attributes of `out` are those of the source arcs given by amap (-1: none)."""
    for name, (kind, v, fill) in vals.items():
        check(hasattr(out, name), 'attribute', name, 'lost', *what)
        got = read(out, name)
        check_eq(got, [v[i] if i >= 0 else fill for i in amap], 'attribute', name, *what)
    if 'obj' in s['kinds']:
        check_eq(getattr(out, 'meta', None), 'meta-%d' % s['seed'], 'non-tensor attribute', *what)


def check_unchanged(fsa, vals, *what):
    for name, (kind, v, fill) in vals.items():
        check_eq(read(fsa, name), v, 'input attribute', name, 'changed', *what)
