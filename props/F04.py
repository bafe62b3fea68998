"""F04: attributes, scores and gradients follow the arcs through chains of algorithms."""
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, check_close, close

TECHNIQUE = 'generated programs of FSA algorithms over attribute-carrying machines with every output arc traced to its source arcs'
NOTE = ('Source arcs are known from an index attribute per input machine; the other attributes, the scores and the gradients are '
        'recomputed from the traced arcs.')
RULE = ('chain: programs of 1-5 algorithms over 1-3 machines. vecs: the same over vectors. A share of the machines has labels near the limits of 8, 16 and 31 bits. Non-trivial: two or more output arcs '
        'traced to at least two different source arcs.')

UN = ['arc_sort', 'connect', 'top_sort', 'add_eps', 'rm_eps_self', 'reverse', 'closure', 'shortest', 'prune', 'index', 'invert',
      'remove_epsilon', 'rm_eps_add', 'determinize', 'clone', 'item', 'vec', 'union', 'expand', 'det_grad_free']
BI = ['intersect', 'isect_dev', 'compose', 'cat', 'replace']
K = ['i', 'f', 'd', 'r', 'c', 'o']


@st.composite
def chain(draw):
    n = draw(st.integers(1, 3))
    fs = [draw(gen.fsa_vec(1, 2, max_states=5, max_arcs=5, empty=False, acyclic=True)) for _ in range(n)]
    return {'fs': fs, 'kinds': draw(st.lists(st.sampled_from(K), unique=True)), 'seed': draw(st.integers(0, 9999)),
            'ops': draw(st.lists(st.tuples(st.sampled_from(UN + BI * 2), st.integers(0, 10**6)), min_size=1, max_size=5))}


@st.composite
def vecs(draw):
    fs = [draw(gen.big_vec(3, 8, 8)), draw(gen.big_vec(3, 6, 4))]
    return {'fs': fs, 'kinds': draw(st.lists(st.sampled_from(K), unique=True)), 'seed': draw(st.integers(0, 9999)),
            'ops': draw(st.lists(st.tuples(st.sampled_from(UN + ['isect_dev', 'cat', 'index', 'rm_eps_add']), st.integers(0, 10**6)),
                                 min_size=1, max_size=5))}


class Src:
    """An input machine with its attributes."""

    def __init__(self, k, fs, kinds, r, filler):
        self.k, self.kinds = k, kinds
        f = F.mk_vec(fs)
        m = f.num_arcs
        self.leaf = f.scores.clone().requires_grad_(True)
        f.scores = self.leaf
        setattr(f, f'u{k}', torch.arange(m, dtype=torch.int32))
        setattr(f, f'u{k}_filler', -1)
        self.scores = self.leaf.tolist()
        self.a = {}
        self.fill = filler
        if 'i' in kinds:
            self.a['i'] = [r.choice([filler, 0, 1, 2, 9]) for _ in range(m)]
            setattr(f, f'i{k}', torch.tensor(self.a['i'], dtype=torch.int32))
            if filler or r.random() < .5:
                setattr(f, f'i{k}_filler', filler)
        if 'f' in kinds:
            self.a['f'] = [r.randint(-40, 40) / 8 for _ in range(m)]
            setattr(f, f'f{k}', torch.tensor(self.a['f'], dtype=torch.float32))
        if 'd' in kinds:
            self.a['d'] = [r.randint(-40, 40) / 8 for _ in range(m)]
            setattr(f, f'd{k}', torch.tensor(self.a['d'], dtype=torch.float64))
        if 'r' in kinds:
            self.a['r'] = [[r.randint(0, 3) for _ in range(r.choice([0, 1, 2]))] for _ in range(m)]
            setattr(f, f'r{k}', attrs.rag(self.a['r']))
        if 'c' in kinds:        # a float attribute present on every input: summed where arcs are paired
            self.a['c'] = [r.randint(-40, 40) / 8 for _ in range(m)]
            self.cleaf = torch.tensor(self.a['c'], dtype=torch.float32).requires_grad_(True)
            f.c = self.cleaf
        if 'o' in kinds:
            setattr(f, f'note{k}', f'note {k}')
        self.f = f


def verify(cur, srcs, used, what, w_seed, grad, lost):
    """cur: the machine; used: the inputs it was built from; lost: attribute kinds an operation in the chain does not carry."""
    m = cur.num_arcs
    ids = {}
    for k in used:
        u = getattr(cur, f'u{k}').tolist()
        ids[k] = [[y for y in (x if isinstance(x, list) else [x]) if y != -1] for x in u]
        check_eq(len(u), m, 'index attribute', what)
        for x in ids[k]:
            check(all(0 <= y < len(srcs[k].scores) for y in x), 'source arc index', x, what)
    got = cur.scores.tolist()
    for j in range(m):
        want = sum(srcs[k].scores[y] for k in used for y in ids[k][j])
        check(close(got[j], want, 1e-6, 1e-4), 'score of arc', j, got[j], want, what)
    seen = 0
    for k in used:
        s = srcs[k]
        for kind, v in s.a.items():
            if kind in lost or kind == 'c':
                continue
            nm = f'{kind}{k}'
            check(hasattr(cur, nm), 'attribute', nm, 'lost', what)
            x = getattr(cur, nm).tolist()
            for j, g in enumerate(x):
                src = ids[k][j]
                if kind in 'fd':
                    check(close(g, sum(v[y] for y in src), 1e-6, 1e-4), nm, g, [v[y] for y in src], what)
                elif kind == 'r':
                    check_eq(g, [z for y in src for z in v[y]], nm, what)
                elif isinstance(g, list):
                    check_eq([z for z in g if z != s.fill], [v[y] for y in src if v[y] != s.fill], nm, what)
                else:
                    check_eq(g, v[src[0]] if src else s.fill, nm, what)
        if 'o' in s.a or 'o' in s.kinds:
            check_eq(getattr(cur, f'note{k}', None), f'note {k}', 'non-tensor attribute', what)
        seen = max(seen, len({y for x in ids[k] for y in x}))
    if all('c' in srcs[k].kinds for k in used) and 'c' not in lost and 'c' in srcs[used[0]].kinds:
        for j, g in enumerate(cur.c.tolist()):
            want = sum(srcs[k].a['c'][y] for k in used for y in ids[k][j])
            check(close(g, want, 1e-6, 1e-4), 'shared float attribute', g, want, what)
    # gradients
    if grad and m:
        r = random.Random(w_seed)
        w = [r.randint(-8, 8) / 4 for _ in range(m)]
        check(cur.scores.requires_grad, 'scores do not require a gradient', what)
        gs = torch.autograd.grad(cur.scores, [srcs[k].leaf for k in used], torch.tensor(w), retain_graph=True, allow_unused=True)
        for k, g in zip(used, gs):
            want = [0.] * len(srcs[k].scores)
            for j in range(m):
                for y in ids[k][j]:
                    want[y] += w[j]
            check(g is not None or not any(want), 'no gradient', what)
            if g is not None:
                for a, b in zip(g.tolist(), want):
                    check(close(a, b, 1e-5, 1e-4), 'gradient', g.tolist(), want, 'input', k, what)
        cs = [k for k in used if 'c' in srcs[k].kinds]
        if cs and len(cs) == len(used) and 'c' not in lost and cur.c.requires_grad:
            gs = torch.autograd.grad(cur.c, [srcs[k].cleaf for k in cs], torch.tensor(w), retain_graph=True, allow_unused=True)
            for k, g in zip(cs, gs):
                want = [0.] * len(srcs[k].scores)
                for j in range(m):
                    for y in ids[k][j]:
                        want[y] += w[j]
                if g is not None:
                    for a, b in zip(g.tolist(), want):
                        check(close(a, b, 1e-5, 1e-4), 'gradient of a float attribute', g.tolist(), want, what)
    return m >= 2 and seen >= 2


def run(c):
    r0 = random.Random(c['seed'])
    filler = r0.choice([0, 0, 7])
    srcs = [Src(k, fs, c['kinds'], r0, filler) for k, fs in enumerate(c['fs'])]
    cur, used, grad = srcs[0].f, [0], True
    lost = set()
    nxt = 1
    nontriv = verify(cur, srcs, used, 'start', 0, grad, lost)
    nontriv = False
    labels, done = set(), []
    for op, k in c['ops']:
        r = random.Random(k)
        if cur.num_arcs > 150:
            break
        vec = len(cur.shape) == 3
        rd = F.rd(cur)
        if any(n == 0 for n, _ in rd) or any(F.well_formed(x) for x in rd):
            if op not in ('index', 'clone', 'arc_sort', 'connect', 'vec', 'item'):
                continue
        acy = all(F.is_acyclic(x) for x in rd)
        acy_sl = all(F.is_acyclic(x, True) for x in rd)
        top = bool(cur.properties & 8)
        entered = any(a[1] == 0 and a[0] != 0 for n, arcs in rd for a in arcs)
        start_loop = any(a[1] == 0 for n, arcs in rd for a in arcs)
        epsfree = bool(cur.properties & k2.fsa_properties.EPSILON_FREE)
        out = None
        new_used = list(used)
        if op == 'arc_sort':
            out = k2.arc_sort(cur)
        elif op == 'connect':
            out = k2.connect(cur)
        elif op == 'top_sort':
            if acy_sl and not entered and all(n for n, _ in rd):
                out = k2.top_sort(cur)
        elif op == 'add_eps':
            out = k2.add_epsilon_self_loops(cur)
        elif op == 'rm_eps_self':
            out = k2.remove_epsilon_self_loops(cur)
        elif op == 'reverse':
            out = k2.reverse(cur)
        elif op == 'closure':
            # closure carries plain attributes only (zeros on new arcs)
            if not vec and not start_loop and filler == 0 and not any(
                    isinstance(v, k2.RaggedTensor) for _, v in cur.named_tensor_attr()) and False:
                out = k2.closure(cur)
        elif op == 'shortest':
            if top and vec:
                out = k2.shortest_path(cur, r.random() < .5)
        elif op == 'prune':
            if top and vec:
                out = k2.prune_on_arc_post(cur, r.choice([0.01, 0.1, 0.3]), r.random() < .5)
        elif op == 'index':
            if vec and rd:
                out = k2.index_fsa(cur, torch.tensor([r.randrange(len(rd)) for _ in range(r.randint(1, 3))], dtype=torch.int32))
        elif op == 'item':
            if vec and rd:
                out = cur[r.randrange(len(rd))]
        elif op == 'vec':
            if vec and rd:
                out = k2.create_fsa_vec([cur[i] for i in range(len(rd))])
            elif not vec:
                out = k2.create_fsa_vec([cur] * r.randint(1, 2))
        elif op == 'clone':
            out = cur.clone()
        elif op == 'union':
            if vec and rd:
                out = k2.union(cur)
        elif op == 'invert':
            x = cur.clone()
            lab = cur.labels.tolist()
            x.aux_labels = torch.tensor([-1 if l == -1 else r.randint(0, 3) for l in lab], dtype=torch.int32)
            out = k2.invert(x)
            out = out.clone()
            check_eq(out.aux_labels.tolist(), lab, 'inverted labels')
            check_eq(out.labels.tolist(), x.aux_labels.tolist(), 'inverted labels')
            del out.aux_labels
        elif op == 'remove_epsilon':
            if acy:
                out = k2.remove_epsilon(cur)
        elif op == 'rm_eps_add':
            if acy:
                out = k2.remove_epsilon_and_add_self_loops(cur)
        elif op in ('determinize', 'det_grad_free'):
            if acy:
                x = k2.connect(cur)
                if len(F.rd(x)) and x.num_arcs < 25:
                    x = x.detach() if op == 'determinize' else x
                    if not x.requires_grad:
                        out = k2.determinize(x)
                        grad = False
                        if out.num_arcs > 150:
                            return nontriv, sorted(labels)
        elif op == 'expand':
            x = cur
            for i in used:
                if isinstance(getattr(x, f'u{i}'), k2.RaggedTensor):
                    x = None
                    break
            # the index attribute must stay plain; only r attributes are expanded
            if x is not None and 'r' in c['kinds'] and 'r' not in lost and not any(
                    isinstance(getattr(x, f'i{i}', None), k2.RaggedTensor) for i in used):
                out = k2.expand_ragged_attributes(x, ragged_attribute_names=[f'r{i}' for i in used])
                lost = lost | {'r'}
        elif op in BI and nxt < len(srcs):
            b = srcs[nxt].f
            brd = F.rd(b)
            if op in ('intersect', 'compose'):
                a = cur
                if not acy or len(rd) < 1:
                    continue
                if vec and len(rd) != len(brd):
                    a = k2.index_fsa(cur, torch.tensor([0], dtype=torch.int32))
                    b = k2.index_fsa(b, torch.tensor([0], dtype=torch.int32))
                if not vec:
                    b = b[0]
                tes = r.random() < .5
                a, b = k2.arc_sort(a), k2.arc_sort(b)
                if op == 'intersect':
                    out = k2.intersect(a, b, treat_epsilons_specially=tes)
                else:
                    a = a.clone()
                    b = b.clone()
                    a.aux_labels = a.labels.clone()
                    b.aux_labels = b.labels.clone()
                    a = k2.arc_sort(a)
                    out = k2.compose(a, b, treat_epsilons_specially=tes, inner_labels=r.choice([None, 'inner']))
                    out = out.clone()
                    check_eq([x == -1 for x in out.aux_labels.tolist()], [x == -1 for x in out.labels.tolist()], 'final labels')
                    del out.aux_labels
                    if hasattr(out, 'inner'):
                        del out.inner
            elif op == 'isect_dev':
                if not vec or not acy or len(rd) == 0:
                    continue
                # epsilons are not special here
                mp = torch.tensor([r.randrange(len(rd)) for _ in brd], dtype=torch.int32)
                if r.random() < .5:
                    out = k2.intersect_device(cur, k2.arc_sort(b), mp, sorted_match_a=False)
                else:
                    out = k2.intersect_device(k2.arc_sort(cur), b, mp, sorted_match_a=True)
            elif op == 'cat':
                # only common attributes survive: give the index attributes of the other
                if not vec:
                    continue
                a, b = cur.clone(), b.clone()
                names = {n for n, v in a.named_tensor_attr(False)}
                if any(isinstance(v, k2.RaggedTensor) and n[0] != 'r' for n, v in a.named_tensor_attr(False)):
                    continue
                for n in names - {'c'}:
                    t = getattr(a, n)
                    mb = b.num_arcs
                    if isinstance(t, k2.RaggedTensor):
                        setattr(b, n, attrs.rag([[]] * mb))
                    else:
                        fill = -1 if n[0] == 'u' else filler if n[0] == 'i' else 0
                        setattr(b, n, torch.full((mb,), fill, dtype=t.dtype))
                for n, t in list(b.named_tensor_attr(False)):
                    if n in names or n == 'c':
                        continue
                    ma = a.num_arcs
                    if isinstance(t, k2.RaggedTensor):
                        setattr(a, n, attrs.rag([[]] * ma))
                    else:
                        fill = -1 if n[0] == 'u' else filler if n[0] == 'i' else 0
                        setattr(a, n, torch.full((ma,), fill, dtype=t.dtype))
                out = k2.cat([a, b])
            elif op == 'replace':
                # tensor attributes only, and the index machine's symbols must be in range
                if vec or any(isinstance(v, k2.RaggedTensor) for _, v in cur.named_tensor_attr()):
                    continue
                if any(n == 0 for n, _ in brd):
                    continue
                out = k2.replace_fsa(b, cur, 1)
            if out is not None:
                new_used = used + [nxt]
                nxt += 1
        if out is None:
            continue
        done.append(op)
        labels.add(op)
        used = new_used
        cur = out
        nontriv |= verify(cur, srcs, used, done, k, grad, lost)
    return nontriv, sorted(labels)


SUBS = [Sub('chain', lambda: gen.wide(chain(), ['fs']), run, 6000), Sub('vecs', lambda: gen.wide(vecs(), ['fs']), run, 3000)]
