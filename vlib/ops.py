"""A catalogue of operations that take vectors of FSAs, with inputs built member by member."""
import random

import torch
import k2

from vlib import attrs, fsa as F

KINDS = ['f', 'd', 'i', 'l', 'rag', 'two', 'obj']


def build(fs, s, ids=None, aux=None, grad=True, tag=''):
    """(FsaVec, leaf) of machines fs; attribute values depend only on the seed and the id of the member."""
    ids = list(range(len(fs))) if ids is None else ids
    f = F.mk_vec(fs)
    leaf = f.scores.clone()
    if grad:
        leaf.requires_grad_(True)
        f.scores = leaf
    v = {k: [] for k in KINDS + ['aux', 'uid']}
    for i, x in zip(ids, fs):
        r = random.Random(f"{s['seed']}/{i}/{tag}")
        m = len(x['arcs'])
        v['uid'] += list(range(m))
        v['f'] += [r.randint(-40, 40) / 8 for _ in range(m)]
        v['d'] += [r.randint(-40, 40) / 8 for _ in range(m)]
        v['i'] += [-1 if a[2] == -1 and r.random() < .5 else r.randint(0, 9) for a in x['arcs']]
        v['l'] += [r.randint(0, 2**40) for _ in range(m)]
        v['two'] += [[r.randint(-40, 40) / 8, r.randint(-40, 40) / 8] for _ in range(m)]
        v['rag'] += [[r.randint(1, 5) for _ in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(m)]
        lists = [[r.randint(1, 4) for _ in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(m)]
        v['aux'] += lists if aux == 'ragged' else [-1 if a[2] == -1 else r.randint(0, 3) for a in x['arcs']]
    n = len(v['uid'])
    setattr(f, 'uid' + tag, torch.tensor(v['uid'], dtype=torch.int32))
    setattr(f, f'uid{tag}_filler', -1)
    for k in s['kinds']:
        if k == 'f':
            setattr(f, 'fa' + tag, torch.tensor(v['f'], dtype=torch.float32))
        elif k == 'd':
            setattr(f, 'da' + tag, torch.tensor(v['d'], dtype=torch.float64))
        elif k == 'i':
            setattr(f, 'ia' + tag, torch.tensor(v['i'], dtype=torch.int32))
            if s.get('fill'):
                setattr(f, f'ia{tag}_filler', 77)
        elif k == 'l':
            setattr(f, 'la' + tag, torch.tensor(v['l'], dtype=torch.int64))
        elif k == 'rag':
            setattr(f, 'ra' + tag, attrs.rag(v['rag']))
        elif k == 'two':
            setattr(f, 'two' + tag, torch.tensor(v['two'], dtype=torch.float32).reshape(n, 2))
        elif k == 'obj':
            setattr(f, 'meta' + tag, 'meta')
    if 'f' in s['kinds'] and s.get('shared'):
        f.common = torch.tensor(v['f'], dtype=torch.float32)
    if aux == 'plain':
        f.aux_labels = torch.tensor(v['aux'], dtype=torch.int32)
    elif aux == 'ragged':
        f.aux_labels = attrs.rag(v['aux'])
    return f, leaf


def explode(f):
    """Per member: (states, arcs with scores, {attribute: values}, non-tensor attributes)."""
    rd = F.rd(f)
    named = {n: v.tolist() for n, v in f.named_tensor_attr(include_scores=False)}
    other = {n: v for n, v in f.named_non_tensor_attr()}
    sc = f.scores.tolist()
    out, o = [], 0
    for n, arcs in rd:
        m = len(arcs)
        out.append({'n': n, 'arcs': [tuple(a[:3]) for a in arcs], 'scores': sc[o:o + m],
                    'attrs': {k: v[o:o + m] for k, v in named.items()}, 'other': other})
        o += m
    return out


def state_offsets(f):
    o = [0]
    for n, _ in F.rd(f):
        o.append(o[-1] + n)
    return o


def dense(c, ids, T=None, C=None):
    """Score matrices; those of a member depend on its id only. Durations do not increase with the id."""
    C = C or 5
    lens, rows = [], []
    for i in ids:
        r = random.Random(f"{c['seed']}/dense/{i}")
        lens.append(c['lens'][i])
        rows.append([[r.randint(-40, 24) / 8 for _ in range(C)] for _ in range(lens[-1])])
    t = max(lens)
    x = torch.tensor([[row + [] for row in m] + [[0.] * C] * (t - len(m)) for m in rows], dtype=torch.float32)
    leaf = x.clone().requires_grad_(True)
    seg = torch.tensor([[k, 0, n] for k, n in enumerate(lens)], dtype=torch.int32)
    return k2.DenseFsaVec(leaf, seg), leaf


# ------------------------------------------------------------------ what an operation needs of its members
def nonempty(x):
    return x['n'] >= 2


def has_path(x):
    nf = F.as_f(x)
    ac, co = F.reach(nf)
    return bool(ac) and x['n'] - 1 in ac


def acyclic(x):
    return F.is_acyclic(F.as_f(x), False)


def top(x):
    return all(a[1] > a[0] for a in x['arcs'])


def loops_only(x):
    """Acyclic apart from self-loops, and nothing enters the start state."""
    return F.is_acyclic(F.as_f(x), True) and not any(a[1] == 0 and a[0] != 0 for a in x['arcs'])


# name: (needs of a member, aux labels, gradient?, function of the vector)
UNARY = {
    'arc_sort': ([], None, True, lambda f, c: k2.arc_sort(f)),
    'connect': ([], None, True, lambda f, c: k2.connect(f)),
    'top_sort': ([nonempty, loops_only], None, True, lambda f, c: k2.top_sort(f)),
    'remove_epsilon_self_loops': ([], None, True, lambda f, c: k2.remove_epsilon_self_loops(f)),
    'add_epsilon_self_loops': ([], None, True, lambda f, c: k2.add_epsilon_self_loops(f)),
    'reverse': ([], None, True, lambda f, c: k2.reverse(f)),
    'shortest_path': ([top], None, True, lambda f, c: k2.shortest_path(f, c['flag'])),
    'prune_on_arc_post': ([nonempty, top], None, True, lambda f, c: k2.prune_on_arc_post(f, [1e-3, 0.05, 0.2][c['k'] % 3], c['flag'])),
    'invert': ([], 'plain', True, lambda f, c: k2.invert(f)),
    'invert ragged': ([], 'ragged', True, lambda f, c: k2.invert(f)),
    'expand': ([], 'ragged', True, lambda f, c: k2.expand_ragged_attributes(f)),
    'remove_epsilon': ([nonempty, acyclic], None, True, lambda f, c: k2.remove_epsilon(f)),
    'remove_epsilon_and_add_self_loops': ([nonempty, acyclic], None, True, lambda f, c: k2.remove_epsilon_and_add_self_loops(f)),
    'determinize': ([nonempty, acyclic, has_path], None, False, lambda f, c: k2.determinize(k2.connect(f), k2.DeterminizeWeightPushingType.kNoWeightPushing)),
    'clone': ([], None, True, lambda f, c: f.clone()),
    'to': ([], None, True, lambda f, c: f.to('cpu')),
    'detach': ([], None, True, lambda f, c: f.detach()),
    'index_fsa': ([], None, True, lambda f, c: k2.index_fsa(f, torch.arange(f.shape[0], dtype=torch.int32))),
    'cat': ([], None, True, lambda f, c: k2.cat([f])),
    'rebuild': ([], None, True, lambda f, c: k2.create_fsa_vec([f[i] for i in range(f.shape[0])])),
    'one_best': ([top], 'plain', True, lambda f, c: k2.one_best_decoding(f, c['flag'])),
    'linear_self_loops': ([nonempty], None, True, lambda f, c: k2.linear_fsa_with_self_loops(f)),
}
