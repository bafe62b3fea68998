"""B01: operations on a vector of FSAs treat every member on its own."""
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import attrs, fsa as F, gen, ops
from vlib.core import Sub, check, check_eq, close

TECHNIQUE = 'metamorphic: the result for a vector against the results for its members one by one (arcs, scores, attributes, gradients)'
NOTE = ('Members include empty ones, ones without arcs or paths and ones of very different size. Members that do not meet the precondition of an operation are replaced.')
RULE = ('unary: a catalogue of operations with one vector argument. binary: intersections and compositions, also with dense scores and arbitrary maps. '
        'scores: totals, forward, backward, posteriors with gradients, path sampling, text. lists: constructors from lists of sequences. vectors: selecting, concatenating, re-creating. '
        'many: an operation on 257 to 66000 copies of one member gives copies of its result. Non-trivial: at least two members with arcs in the result.')

TINY = [{'n': 0, 'arcs': []}, {'n': 2, 'arcs': []}, {'n': 3, 'arcs': [[0, 1, 1, 8], [1, 1, 0, 4]]}, {'n': 2, 'arcs': [[0, 1, -1, 8]]}, {'n': 3, 'arcs': [[1, 2, -1, 3]]}]
PLAIN = {'n': 3, 'arcs': [[0, 1, 2, 4], [0, 1, 0, 8], [1, 2, -1, -8]]}


@st.composite
def member(draw, style, labels=4):
    k = draw(st.integers(0, 9))
    if k == 0:
        return draw(st.sampled_from(TINY))
    if k < 7:
        return draw(gen.fsa(max_states=6, max_arcs=8, max_label=min(labels, 3), acyclic=style != 'cyclic', top_sorted=style == 'top', self_loops=style == 'loops'))
    r = random.Random(draw(st.integers(0, 10**6)))
    return gen.rand_fsa(r, draw(st.integers(2, 30)), draw(st.integers(0, 30)), max_label=labels, acyclic=style != 'cyclic', self_loops=style == 'loops', connected=r.random() < .7)


@st.composite
def members(draw, style=None, lo=1, hi=5, labels=None):
    style = style or draw(st.sampled_from(['top', 'top', 'acyclic', 'loops', 'cyclic']))
    fs = st.lists(member(style, labels or 4), min_size=lo, max_size=hi)
    if labels:
        return draw(fs)
    return draw(gen.wide(fs.map(lambda fs: {'fs': fs}), ['fs']))['fs']


def spec():
    return st.fixed_dictionaries({'kinds': st.lists(st.sampled_from(ops.KINDS), unique=True, max_size=4), 'fill': st.booleans(), 'seed': st.integers(0, 9999)})


def weights(m):
    return torch.tensor([((j * 7 + 3) % 11 - 5) / 4 for j in range(m)])


def near(a, b, tol=1e-5):
    return len(a) == len(b) and all(close(x, y, tol, tol) for x, y in zip(a, b))


def same(got, want, *what):
    check_eq(got['n'], want['n'], 'number of states', *what)
    check_eq(got['arcs'], want['arcs'], 'arcs', *what)
    check(near(got['scores'], want['scores']), 'scores', got['scores'], want['scores'], *what)
    check_eq(sorted(got['attrs']), sorted(want['attrs']), 'attributes', *what)
    for k, v in got['attrs'].items():
        w = want['attrs'][k]
        if v and isinstance(v[0], float):
            check(near(v, w), 'attribute', k, v, w, *what)
        else:
            check_eq(v, w, 'attribute', k, *what)
    check_eq(got['other'], want['other'], 'non-tensor attributes', *what)


def spoken(x):
    """The strings with their scores; epsilon self-loops do not matter."""
    rest = [a + (w,) for a, w in zip(x['arcs'], x['scores']) if not (a[0] == a[1] and a[2] == 0)]
    try:
        return {k: round(v, 3) for k, v in F.language((x['n'], rest)).items()}
    except F.TooBig:
        return round(F.forward((x['n'], rest), False)[-1], 3), round(F.forward((x['n'], [a[:3] + (-a[3],) for a in rest]), False)[-1], 3)


def grad_of(out, leaves, sizes):
    """Gradient of the scores of out (weighted by the position in the member)."""
    w = torch.cat([weights(m) for m in sizes] + [torch.zeros(0)])
    if not out.scores.requires_grad:
        return None
    g = torch.autograd.grad(out.scores, leaves, w, allow_unused=True)
    return [x if x is not None else torch.zeros_like(l) for x, l in zip(g, leaves)]


def arc_offsets(fs):
    o = [0]
    for x in fs:
        o.append(o[-1] + len(x['arcs']))
    return o


# ------------------------------------------------------------------ unary
@st.composite
def unary_case(draw):
    op = draw(st.sampled_from(sorted(ops.UNARY)))
    needs = ops.UNARY[op][0]
    style = 'top' if ops.top in needs else draw(st.sampled_from(['top', 'acyclic'])) if ops.acyclic in needs else draw(
        st.sampled_from(['loops', 'acyclic'])) if ops.loops_only in needs else None
    fs = draw(members(style))
    return {'op': op, 'fs': fs, 's': draw(spec()), 'flag': draw(st.booleans()), 'k': draw(st.integers(0, 5))}


def run_unary(c):
    needs, aux, grad, fn = ops.UNARY[c['op']]
    if c['op'] in ('remove_epsilon', 'remove_epsilon_and_add_self_loops', 'determinize'):
        # integer attributes become lists here: 32 bits only, one axis
        c = dict(c, s=dict(c['s'], kinds=[k for k in c['s']['kinds'] if k not in ('l', 'two')]))
    fs = [x if all(p(x) for p in needs) else PLAIN for x in c['fs']]
    if c['op'] == 'determinize':
        fs = [x if len(x['arcs']) < 30 else PLAIN for x in fs]
    f, leaf = ops.build(fs, c['s'], aux=aux, grad=grad)
    if c['op'] == 'determinize':
        f = k2.connect(f)
    out = fn(f, c)
    check_eq(out.shape[0], len(fs), 'members of the result', c['op'])
    got = ops.explode(out)
    g = grad_of(out, [leaf], [len(x['arcs']) for x in got]) if grad else None
    o = arc_offsets(fs)
    arcs = 0
    for i, x in enumerate(fs):
        f1, leaf1 = ops.build([x], c['s'], [i], aux=aux, grad=grad)
        if c['op'] == 'determinize':
            f1 = k2.connect(f1)
        out1 = fn(f1, c)
        want = ops.explode(out1)
        check_eq(len(want), 1, 'members', c['op'])
        arcs += bool(got[i]['arcs'])
        if c['op'] in ('remove_epsilon', 'remove_epsilon_and_add_self_loops', 'determinize') and f.properties != f1.properties:
            # the algorithm depends on the properties of the whole vector
            check_eq(spoken(got[i]), spoken(want[0]), c['op'], 'member', i)
            continue
        same(got[i], want[0], c['op'], 'member', i)
        check_eq(out.requires_grad if hasattr(out, 'requires_grad') else None, out1.requires_grad, 'requires_grad', c['op']) if got[i]['arcs'] else None
        if g is not None:
            g1 = grad_of(out1, [leaf1], [len(want[0]['arcs'])])
            check(near(g[0][o[i]:o[i + 1]].tolist(), g1[0].tolist()), 'gradient', c['op'], 'member', i, g, g1)
    return arcs > 1, [c['op']] + (['empty'] if any(x['n'] == 0 for x in fs) else [])


# ------------------------------------------------------------------ binary
BIN = ['intersect', 'intersect eps', 'compose', 'intersect_device', 'intersect_device sorted', 'intersect_device one', 'dense', 'dense map', 'dense one', 'pruned', 'pruned one', 'replace']


@st.composite
def binary_case(draw):
    op = draw(st.sampled_from(BIN))
    style = draw(st.sampled_from(['top', 'acyclic', 'cyclic', 'loops']))
    k = draw(st.sampled_from([1, 2, 4]))
    a = draw(members(style, 1, 4, k))
    b = draw(members('top' if 'device' in op else draw(st.sampled_from(['top', 'acyclic'])), 1, 4, k))
    lens = sorted(draw(st.lists(st.integers(1, 7), min_size=1, max_size=5)), reverse=True)
    return {'op': op, 'a': a, 'b': b, 's': draw(spec()), 'lens': lens, 'map': draw(st.lists(st.integers(0, 99), min_size=5, max_size=5)), 'flag': draw(st.booleans()),
            'seed': draw(st.integers(0, 9999)), 'beam': draw(st.sampled_from([1.0, 4.0, 1000.0]))}


def run_binary(c):
    op = c['op']
    ok = [x if ops.nonempty(x) and len(x['arcs']) < 40 else PLAIN for x in c['a']]
    b = [x if ops.nonempty(x) and len(x['arcs']) < 40 else PLAIN for x in c['b']]
    sa, sb = c['s'], dict(c['s'], seed=c['s']['seed'] + 1)
    shared = 'f' in sa['kinds'] and c['flag']
    sa, sb = dict(sa, shared=shared), dict(sb, shared=shared)
    dense = op.split()[0] in ('dense', 'pruned')
    # labels of the dense case stay below the number of columns
    if op in ('intersect', 'intersect eps', 'compose'):
        n = min(len(ok), len(b))
        ok, b = ok[:n], b[:n]
        acyc = [ops.acyclic(x) and ops.acyclic(y) for x, y in zip(ok, b)]
        ok = [x if k else PLAIN for x, k in zip(ok, acyc)]
        b = [x if k else PLAIN for x, k in zip(b, acyc)]
        results, amap = n, list(range(n))
    elif dense:
        if op == 'dense' or op == 'pruned':
            n = min(len(ok), len(c['lens']))
            ok = ok[:n]
            results, amap = n, list(range(n))
        else:
            results = len(c['lens'])
            if 'one' in op:
                ok = ok[:1]
            amap = [m % len(ok) for m in c['map'][:results]]
    else:
        if 'one' in op:
            ok = ok[:1]
        results, amap = len(b), [m % len(ok) for m in c['map'][:len(b)]]

    if op == 'replace':
        sa, sb = [dict(x, kinds=[k for k in x['kinds'] if k != 'rag']) for x in (sa, sb)]
        ok = [x for x in ok if len(x['arcs']) < 12] or [PLAIN]
        results, amap = len(ok), list(range(len(ok)))

    def call(which, full=False):
        """The operation for some of the results; inputs restricted to those they need."""
        if op in ('intersect', 'intersect eps', 'compose') or (dense and op in ('dense', 'pruned')):
            ids = [amap[i] for i in which]
            mp = list(range(len(ids)))
        elif full:
            ids = list(range(len(ok)))
            mp = [amap[i] for i in which]
        else:
            ids = [amap[which[0]]]
            mp = [0]
        aux = 'plain' if op == 'compose' else None
        f, fl = ops.build([ok[i] for i in ids], sa, ids, aux=aux)
        amap_t = torch.tensor(mp, dtype=torch.int32)
        if op == 'replace':
            g, gl = ops.build(b, sb, tag='b')
            return k2.replace_fsa(g, f, 1), [fl, gl], [which[0]]
        if dense:
            d, dl = ops.dense(c, which)
            if op.split()[0] == 'dense':
                out = k2.intersect_dense(f, d, c['beam'], a_to_b_map=None) if op == 'dense' else None
                if out is None:
                    # a_to_b_map goes from machines to score matrices: one machine per result
                    sel = k2.index_fsa(f, amap_t)
                    out = k2.intersect_dense(sel, d, c['beam'], a_to_b_map=torch.arange(len(which), dtype=torch.int32))
            else:
                if f.shape[0] == 1:
                    out = k2.intersect_dense_pruned(f[0] if c['flag'] else f, d, 1000.0, c['beam'], 0, 10000)
                else:
                    out = k2.intersect_dense_pruned(f, d, 1000.0, c['beam'], 0, 10000)
            return out, [fl, dl], ids
        g, gl = ops.build([b[i] for i in which], sb, which, aux='plain' if op == 'compose' else None, tag='b')
        if op == 'intersect':
            out = k2.intersect(k2.arc_sort(f), k2.arc_sort(g), treat_epsilons_specially=False)
        elif op == 'intersect eps':
            out = k2.intersect(k2.arc_sort(f), k2.arc_sort(g), treat_epsilons_specially=True)
        elif op == 'compose':
            out = k2.compose(f, k2.arc_sort(g), treat_epsilons_specially=c['flag'])
        elif 'sorted' in op:
            out = k2.intersect_device(k2.arc_sort(f), g, amap_t, sorted_match_a=True)
        else:
            out = k2.intersect_device(f, g, amap_t, sorted_match_a=False)
        return out, [fl, gl], ids
    if dense and results > 1 and op == 'pruned' and len(ok) == 1:
        return False, ['skip']
    out, leaves, _ = call(list(range(results)), True)
    check_eq(out.shape[0], results, 'members of the result', op)
    got = ops.explode(out)
    g = grad_of(out, leaves, [len(x['arcs']) for x in got])
    oa, ob = arc_offsets(ok), arc_offsets(b)
    total_a, total_b = torch.zeros_like(leaves[0]), torch.zeros_like(leaves[1])
    arcs = 0
    for i in range(results):
        out1, leaves1, ids = call([i])
        want = ops.explode(out1)
        same(got[i], want[0], op, 'result', i)
        arcs += bool(got[i]['arcs'])
        if g is not None:
            g1 = grad_of(out1, leaves1, [len(want[0]['arcs'])])
            if g1 is None:
                continue
            a = ids[0]
            total_a[oa[a]:oa[a + 1]] += g1[0]
            if op == 'replace':
                total_b = total_b + g1[1]
            elif dense:
                n = c['lens'][i]
                check(near(g[1][i][:n].reshape(-1).tolist(), g1[1][0][:n].reshape(-1).tolist(), 1e-4), 'gradient of the scores', op, i)
            else:
                check(near(g[1][ob[i]:ob[i + 1]].tolist(), g1[1].tolist(), 1e-4), 'gradient of b', op, i)
    if g is not None:
        check(near(g[0].tolist(), total_a.tolist(), 1e-4), 'gradient of a', op, g[0].tolist(), total_a.tolist())
    if g is not None and op == 'replace':
        check(near(g[1].tolist(), total_b.tolist(), 1e-4), 'gradient of the replacements', op)
    return arcs > 1, [op]


# ------------------------------------------------------------------ scores
@st.composite
def scores_case(draw):
    return {'fs': draw(members('top', 1, 6)), 'dbl': draw(st.booleans()), 'log': draw(st.booleans()), 'seed': draw(st.integers(0, 999)), 'conn': draw(st.booleans())}


def run_scores(c):
    s = {'kinds': [], 'seed': c['seed']}
    fs = [x if ops.top(x) else PLAIN for x in c['fs']]
    f, leaf = ops.build(fs, s)

    def numbers(f, leaf, offs):
        """{name: (per state / arc / machine values, gradients)}"""
        out = {}
        for name, fn in (('tot', lambda: f.get_tot_scores(c['dbl'], c['log'])), ('forward', lambda: f.get_forward_scores(c['dbl'], c['log'])),
                         ('backward', lambda: f.get_backward_scores(c['dbl'], c['log'])), ('post', lambda: f.get_arc_post(c['dbl'], c['log']))):
            if name == 'post' and not c['log']:
                continue
            v = fn()
            w = torch.zeros_like(v)
            o = offs[name]
            for i in range(len(o) - 1):
                w[o[i]:o[i + 1]] = weights(o[i + 1] - o[i])
            w[~torch.isfinite(v.detach())] = 0
            g = torch.autograd.grad(v, leaf, w, retain_graph=True, allow_unused=True)[0] if v.requires_grad and v.numel() else None
            out[name] = v.tolist(), g
        if not c['log']:
            out['entering'] = f._get_entering_arcs(c['dbl']).tolist(), None
        return out

    def offsets(fs):
        so, ao = [0], arc_offsets(fs)
        for x in fs:
            so.append(so[-1] + x['n'])
        return {'tot': list(range(len(fs) + 1)), 'forward': so, 'backward': so, 'post': ao, 'entering': so}, ao
    offs, ao = offsets(fs)
    got = numbers(f, leaf, offs)
    live = 0
    for i, x in enumerate(fs):
        f1, leaf1 = ops.build([x], s, [i])
        o1, _ = offsets([x])
        want = numbers(f1, leaf1, o1)
        for name, (v, g) in got.items():
            part = v[offs[name][i]:offs[name][i + 1]]
            if name == 'entering':
                part = [a - ao[i] if a >= 0 else a for a in part]
                check_eq(part, want[name][0], name, 'member', i)
                continue
            check(near(part, want[name][0]), name, 'member', i, part, want[name][0])
            if g is not None and want[name][1] is not None:
                check(near(g[ao[i]:ao[i + 1]].tolist(), want[name][1].tolist(), 1e-4), 'gradient of', name, 'member', i, g[ao[i]:ao[i + 1]], want[name][1])
        live += want['tot'][0][0] > float('-inf')
    # sampled paths belong to their member and there are none exactly where the member has no path
    g2 = f.detach()
    if c['conn']:
        p = k2.random_paths(g2, c['dbl'], 3)
        check_eq(p.dim0, len(fs), 'rows of sampled paths')
        for i, q in enumerate(p.tolist()):
            check_eq(len(q), 3 if got_path(got, i) else 0, 'sampled paths of member', i)
            check(all(ao[i] <= a < ao[i + 1] for z in q for a in z), 'sampled arcs of member', i, q)
    return live > 1, ['log' if c['log'] else 'max']


def got_path(got, i):
    return got['tot'][0][i] > float('-inf')


# ------------------------------------------------------------------ constructors from sequences
@st.composite
def lists_case(draw):
    seqs = draw(st.lists(st.lists(st.integers(1, 4), max_size=5), min_size=1, max_size=6))
    return {'seqs': seqs, 'mod': draw(st.booleans()), 'sc': draw(st.sampled_from([-0.501, -0.5, -1.0])), 'ragged': draw(st.booleans())}


def run_lists(c):
    seqs = c['seqs']

    def arg(q):
        return attrs.rag(q) if c['ragged'] or not any(q) else q
    fns = {'linear_fsa': lambda q: k2.linear_fsa(arg(q)), 'ctc_graph': lambda q: k2.ctc_graph(arg(q), c['mod']),
           'levenshtein_graph': lambda q: k2.levenshtein_graph(arg(q), ins_del_score=c['sc']),
           'linear_fst': lambda q: k2.linear_fst([z for z in q], [[v + 1 for v in z] for z in q])}
    if c['ragged'] or not all(seqs):
        del fns['linear_fst']
    for name, fn in fns.items():
        got = ops.explode(fn(seqs))
        check_eq(len(got), len(seqs), name)
        for i, q in enumerate(seqs):
            same(got[i], ops.explode(fn([q]))[0], name, 'sequence', i)
    return len(seqs) > 1, sorted(fns)


# ------------------------------------------------------------------ vectors
@st.composite
def vec_case(draw):
    fs = draw(members(None, 1, 6))
    n = len(fs)
    idx = st.lists(st.integers(0, n - 1), min_size=1, max_size=6)
    return {'fs': fs, 's': draw(spec()), 'aux': draw(st.sampled_from([None, 'plain', 'ragged'])), 'a': draw(idx), 'b': draw(idx), 'seq': draw(st.lists(st.integers(0, 4), max_size=4)),
            'how': draw(st.sampled_from(['index', 'item', 'cat', 'create', 'create vecs']))}


def run_vec(c):
    fs, how = c['fs'], c['how']
    f, leaf = ops.build(fs, c['s'], aux=c['aux'])
    ids = c['a']
    base = ops.explode(f)
    t = torch.tensor(ids, dtype=torch.int32)
    if how == 'index':
        out = k2.index_fsa(f, t)
    elif how == 'item':
        ids = ids[:1]
        x = f[ids[0]]
        check_eq(len(x.shape), 2, 'axes')
        out = k2.create_fsa_vec([x])
    elif how == 'cat':
        ids = ids + c['b']
        out = k2.cat([k2.index_fsa(f, t), k2.index_fsa(f, torch.tensor(c['b'], dtype=torch.int32))])
    elif how == 'create':
        out = k2.create_fsa_vec([f[i] for i in ids])
    else:
        out = k2.create_fsa_vec([k2.index_fsa(f, torch.tensor([i], dtype=torch.int32))[0] if k % 2 else f[i] for k, i in enumerate(ids)])
    # further selections of the result
    for s in c['seq']:
        j = [s % len(ids)] + [k for k in range(len(ids)) if k != s % len(ids)]
        ids = [ids[k] for k in j]
        out = k2.index_fsa(out, torch.tensor(j, dtype=torch.int32))
    got = ops.explode(out)
    check_eq(len(got), len(ids), 'members', how)
    for x, i in zip(got, ids):
        want = dict(base[i])
        if how in ('create', 'create vecs', 'item'):
            # fillers and non-tensor attributes are taken over, too
            pass
        same(x, want, how, 'member', i)
    o = arc_offsets(fs)
    if out.requires_grad:
        g = torch.autograd.grad(out.scores, leaf, torch.arange(out.num_arcs, dtype=torch.float32))[0].tolist()
        want, k = [0.] * leaf.numel(), 0
        for i in ids:
            for j in range(o[i], o[i + 1]):
                want[j] += k
                k += 1
        check_eq(g, want, 'gradient', how)
    else:
        check(out.num_arcs == 0 or not leaf.requires_grad, 'requires_grad lost', how)
    return len(ids) > 1, [how]


# ------------------------------------------------------------------ many copies
MANY = sorted(set(ops.UNARY) - {'rebuild', 'cat', 'index_fsa', 'to', 'detach'})
MANY2 = ['intersect', 'intersect_device', 'intersect_device sorted', 'compose', 'dense', 'pruned', 'union', 'scores', 'replace']


@st.composite
def many_case(draw):
    op = draw(st.sampled_from(MANY + MANY2))
    needs = ops.UNARY[op][0] if op in MANY else [ops.top]
    style = 'top' if ops.top in needs else draw(st.sampled_from(['top', 'acyclic'])) if ops.acyclic in needs else draw(
        st.sampled_from(['loops', 'acyclic'])) if ops.loops_only in needs else None
    fs = draw(st.lists(member(style), min_size=1, max_size=4))
    return {'op': op, 'fs': fs, 's': draw(spec()), 'flag': draw(st.booleans()), 'k': draw(st.integers(0, 5)),
            'm': draw(st.sampled_from([257, 300, 1025, 2100, 5000] + [66000] * (op in ('arc_sort', 'connect', 'intersect_device', 'scores', 'reverse', 'shortest_path')))),
            'seed': draw(st.integers(0, 10**6))}


def equal_fsa(x, y, *what):
    check_eq(tuple(x.shape), tuple(y.shape), 'shape', *what)
    for k in (1, 2):
        check(torch.equal(x.arcs.row_splits(k), y.arcs.row_splits(k)), 'row splits', k, *what)
        check(torch.equal(x.arcs.row_ids(k), y.arcs.row_ids(k)), 'row ids', k, *what)
    check(torch.equal(x.arcs.values()[:, :3], y.arcs.values()[:, :3]), 'arcs', *what)
    check(torch.allclose(x.scores, y.scores, 1e-5, 1e-5), 'scores', *what)
    a, b = dict(x.named_tensor_attr(include_scores=False)), dict(y.named_tensor_attr(include_scores=False))
    check_eq(sorted(a), sorted(b), 'attributes', *what)
    for k, v in a.items():
        if isinstance(v, torch.Tensor):
            check(v.dtype == b[k].dtype and (torch.allclose(v, b[k], 1e-5, 1e-5) if v.is_floating_point() else torch.equal(v, b[k])), 'attribute', k, *what)
        else:
            check(torch.equal(v.values, b[k].values) and torch.equal(v.shape.row_splits(1), b[k].shape.row_splits(1)), 'attribute', k, *what)


def run_many(c):
    """What an operation gives for copies is copies of what it gives."""
    op, m = c['op'], c['m']
    needs, aux, grad, fn = ops.UNARY[op] if op in MANY else ([ops.nonempty, ops.top, ops.has_path], None, True, None)
    s = c['s']
    if op in ('remove_epsilon', 'remove_epsilon_and_add_self_loops', 'determinize') or op not in MANY:
        s = dict(s, kinds=[k for k in s['kinds'] if k not in ('l', 'two', 'rag', 'obj')])
    fs = [x if all(p(x) for p in needs) and len(x['arcs']) < (30 if op == 'determinize' else 99) else PLAIN for x in c['fs']]
    idx = torch.randint(0, len(fs), (m,), generator=torch.Generator().manual_seed(c['seed']), dtype=torch.int32)
    f, _ = ops.build(fs, s, aux=aux, grad=False)
    if op == 'determinize' or op == 'scores':
        f = k2.connect(f)
    if op in ('pruned', 'dense', 'replace', 'union'):
        idx = idx.sort()[0]
    v = k2.index_fsa(f, idx)
    li = idx.long()
    if op in MANY:
        equal_fsa(fn(v, c), k2.index_fsa(fn(f, c), idx), op, m, 'copies')
    elif op == 'scores':
        for name, args in (('get_tot_scores', (True, c['flag'])), ('get_forward_scores', (True, c['flag'])), ('get_backward_scores', (True, c['flag'])), ('get_arc_post', (True, c['flag']))):
            x, y = getattr(v, name)(*args), getattr(f, name)(*args)
            if name != 'get_tot_scores':
                rs = f.arcs.row_splits(1).long()
                if name == 'get_arc_post':
                    rs = f.arcs.row_splits(2).long()[rs]
                parts = [y[rs[i]:rs[i + 1]] for i in range(len(fs))]
                y = torch.cat([parts[i] for i in li.tolist()])
            else:
                y = y[li]
            check(torch.allclose(x, y, 1e-9, 1e-9), op, name, m, 'copies')
    elif op in ('intersect', 'compose', 'intersect_device', 'intersect_device sorted'):
        g, _ = ops.build([x if len(x['arcs']) < 12 else PLAIN for x in fs[::-1]], dict(s, seed=s['seed'] + 1), tag='b', grad=False, aux='plain' if op == 'compose' else None)
        f2 = f
        if op == 'compose':
            f2, _ = ops.build(fs, s, aux='plain', grad=False)
        f2, g = k2.arc_sort(f2), k2.arc_sort(g)
        v2, w = k2.index_fsa(f2, idx), k2.index_fsa(g, idx)
        if op == 'intersect':
            one, many = k2.intersect(f2, g, treat_epsilons_specially=c['flag']), k2.intersect(v2, w, treat_epsilons_specially=c['flag'])
        elif op == 'compose':
            one, many = k2.compose(f2, g), k2.compose(v2, w)
        else:
            n = len(fs)
            srt = 'sorted' in op
            one = k2.intersect_device(f2, g, torch.arange(n, dtype=torch.int32), sorted_match_a=srt)
            if c['flag']:    # shared first operand
                many = k2.intersect_device(f2, w, idx, sorted_match_a=srt)
            else:
                many = k2.intersect_device(v2, w, torch.arange(m, dtype=torch.int32), sorted_match_a=srt)
        if op.startswith('intersect_device'):
            # the order of the states may depend on the other members
            one, many = k2.connect(k2.top_sort(one)), k2.connect(k2.top_sort(many))
            x, y = many.get_tot_scores(True, True), one.get_tot_scores(True, True)[li]
            check(torch.allclose(x, y, 1e-9, 1e-9), op, m, 'copies: total scores')
            na, nb = many.arcs.row_splits(1), one.arcs.row_splits(1)
            check(torch.equal(na[1:] - na[:-1], (nb[1:] - nb[:-1])[li]), op, m, 'copies: states')
            ka, kb = many.arcs.row_splits(2)[na.long()], one.arcs.row_splits(2)[nb.long()]
            check(torch.equal(ka[1:] - ka[:-1], (kb[1:] - kb[:-1])[li]), op, m, 'copies: arcs')
        else:
            equal_fsa(many, k2.index_fsa(one, idx), op, m, 'copies')
    elif op in ('dense', 'pruned'):
        n = len(fs)
        r = random.Random(c['seed'])
        T = r.randint(1, 5)
        x = torch.tensor([[[r.randint(-40, 24) / 8 for _ in range(5)] for _ in range(T)] for _ in range(n)])
        d1 = k2.DenseFsaVec(x, torch.tensor([[i, 0, T] for i in range(n)], dtype=torch.int32))
        f = k2.arc_sort(f)
        if op == 'dense':
            one = k2.intersect_dense(f, d1, 4.0, a_to_b_map=torch.arange(n, dtype=torch.int32))
            many = k2.intersect_dense(k2.index_fsa(f, idx), d1, 4.0, a_to_b_map=idx)
        else:
            d2 = k2.DenseFsaVec(x[li], torch.tensor([[i, 0, T] for i in range(m)], dtype=torch.int32))
            kw = dict(search_beam=20.0, output_beam=4.0, min_active_states=0, max_active_states=1000)
            one = k2.intersect_dense_pruned(f, d1, **kw)
            many = k2.intersect_dense_pruned(k2.index_fsa(f, idx), d2, **kw)
        check(torch.allclose(many.get_tot_scores(True, True), one.get_tot_scores(True, True)[li], 1e-6, 1e-6), op, m, 'copies: total scores')
        equal_fsa(many, k2.index_fsa(one, idx), op, m, 'copies')
    elif op == 'union':
        u = k2.union(v)
        check_eq(u.num_arcs, int(sum(len(fs[i]['arcs']) for i in li.tolist())) + m, 'arcs of the union', m)
        tot = f.get_tot_scores(True, True)[li]
        check(abs(k2.create_fsa_vec([u]).get_tot_scores(True, True)[0] - torch.logsumexp(tot, 0)) < 1e-6 * max(1, abs(float(torch.logsumexp(tot, 0)))) or not torch.isfinite(tot).any(),
              'total score of the union of', m)
    elif op == 'replace':
        idx1 = k2.linear_fsa((li + 10).tolist())
        out = k2.replace_fsa(f, idx1, 10)
        check_eq(int(out.num_arcs), sum(len(fs[i]['arcs']) for i in li.tolist()) + m + 1, 'arcs of the replacement', m)
        want = f.get_tot_scores(True, True)[li].sum()
        got = k2.create_fsa_vec([k2.top_sort(out)]).get_tot_scores(True, True)[0]
        check(abs(want - got) < 1e-6 * max(1, abs(float(want))) or not torch.isfinite(want), 'total score of the replacement', want, got, m)
    return len(fs) > 1, [op, f'{m} copies']


SUBS = [Sub('unary', unary_case, run_unary, 3000), Sub('binary', binary_case, run_binary, 2000), Sub('scores', scores_case, run_scores, 1000),
        Sub('lists', lists_case, run_lists, 300), Sub('vectors', vec_case, run_vec, 1500),
        Sub('many', many_case, run_many, 800)]
