"""X01: the C++ deployment library against the Python library and plain references."""
import itertools
import math
import os
import random
import struct
import tempfile

import torch
import k2
from hypothesis import strategies as st

from vlib import attrs, dense as D, ext, fsa as F, gen, ops
from vlib.core import Sub, check, check_all_close, check_close, check_eq, raises

TECHNIQUE = 'differential: the C++ deployment library and the Python library on the same inputs; plain references for files, n-best, beam search and containers'
NOTE = ('cpp/k2x.cc binds k2/torch/csrc and is compiled when the check runs. Ragged attributes are int32 with two axes, as the loader supports. '
        'Operations support float32, float64 and int32 attributes. A saved dictionary has at least two items, as documented.')
RULE = ('load, ops, lattice, rescore, rnnt: machines with attributes. nbest, best: every path of the lattice. beam: scripted models. tools: waves, symbols, hypotheses, options. '
        'Non-trivial: the result is not empty.')
NEEDS_EXT = True
X = ext.load()
NEG = float('-inf')
SCRATCH = tempfile.mkdtemp(prefix='x01-', dir=os.getcwd())


def path(name):
    return os.path.join(SCRATCH, name)


# ------------------------------------------------------------------ data
def to_x(f):
    """The same machine for the C++ library."""
    s = f.arcs.shape()
    t, l = {}, {}
    for n, v in f.named_tensor_attr(include_scores=False):
        if isinstance(v, k2.RaggedTensor):
            l[n] = v.tolist()
        else:
            t[n] = v.detach().contiguous()
    return X.make(f.arcs.values(), [s.row_splits(i).tolist() for i in range(1, s.num_axes)], t, l)


def same(x, f, what, ignore=()):
    """A machine of the C++ library is that of Python."""
    splits, arcs, t, l, props = x.get()
    s = f.arcs.shape()
    check_eq([list(v) for v in splits], [s.row_splits(i).tolist() for i in range(1, s.num_axes)], what, 'shape')
    check_eq(arcs[:, :3].tolist(), f.arcs.values()[:, :3].tolist(), what, 'arcs')
    check_all_close(x.scores().tolist(), f.scores.tolist(), what, 'scores', rtol=1e-6, atol=1e-5)
    want_t, want_l = {}, {}
    for n, v in f.named_tensor_attr(include_scores=False):
        if n in ignore:
            continue
        if isinstance(v, k2.RaggedTensor):
            want_l[n] = v.tolist()
        else:
            want_t[n] = (str(v.dtype), v.tolist())
    check_eq({n: (str(v.dtype), v.tolist()) for n, v in t.items() if n not in ignore}, want_t, what, 'tensor attributes')
    check_eq({n: v for n, v in l.items() if n not in ignore}, want_l, what, 'ragged attributes')
    check_eq(props & ~256, f.properties & ~256, what, 'properties')


def documented(f):
    """Ragged aux labels end with -1 on final arcs and have no other -1, as invert requires."""
    if isinstance(getattr(f, 'aux_labels', None), k2.RaggedTensor):
        rows = [[v for v in row if v != -1] + [-1] * (l == -1) for row, l in zip(f.aux_labels.tolist(), f.labels.tolist())]
        f.aux_labels = attrs.rag(rows)
    return f


def machines(r, n, lo=2, hi=6, eps=True, acyclic=True):
    out = []
    for _ in range(n):
        k = r.randint(lo, hi)
        out.append(gen.rand_fsa(r, k, r.randint(0, 2 * k), eps=eps) if k >= 2 else {'n': 0, 'arcs': []})
    return out


KIND = st.lists(st.sampled_from(['f', 'd', 'i', 'rag', 'obj']), max_size=3, unique=True)


# ------------------------------------------------------------------ saved files
def load_case():
    return st.fixed_dictionaries({'fs': gen.fsa_vec(min_size=1, max_states=6, acyclic=False), 'kinds': st.lists(st.sampled_from(
        ['f', 'd', 'i', 'l', 'rag', 'two', 'obj']), max_size=4, unique=True), 'aux': st.sampled_from([None, 'plain', 'ragged']), 'one': st.booleans(), 'api': st.booleans(), 'seed': st.integers(0, 10**6)})


def run_load(c):
    fs = c["fs"]
    f, _ = ops.build(fs, {'kinds': c['kinds'], 'seed': c['seed']}, aux=c['aux'], grad=False)
    if c['one']:
        # the tensor form of a single FSA needs an arc into its final state
        k = [i for i, x in enumerate(fs) if any(a[1] == x['n'] - 1 for a in x['arcs'])]
        if not k:
            return False, []
        f = f[k[0]]
    name = path('fsa.pt')
    torch.save(f.as_dict(), name)
    x = (X.load_api if c['api'] else X.load)(name)
    same(x, f, 'loaded')
    check_eq(x.get()[1].tolist(), f.arcs.values().tolist(), 'bits of the scores', c)
    # and again through Python
    g = k2.Fsa.from_dict(torch.load(name, weights_only=False))
    same(x, g, 'loaded by both')
    return f.num_arcs > 0, ['one' if c['one'] else 'vec', f'aux:{c["aux"]}'] + c['kinds']


# ------------------------------------------------------------------ operations
OPS = ['invert', 'arc_sort', 'connect', 'top_sort', 'shortest_path', 'linear', 'texts', 'tot', 'scale', 'labels', 'scores', 'intersect', 'attr']


def ops_case():
    return st.fixed_dictionaries({'n': st.integers(1, 4), 'kinds': KIND, 'aux': st.sampled_from(['plain', 'ragged', None]), 'ops': st.lists(st.sampled_from(OPS), min_size=1, max_size=5),
                                  'seed': st.integers(0, 10**6), 'empty': st.booleans()})


def untouched(copy, f, what):
    same(copy, f, what)


def run_ops(c):
    r = random.Random(c['seed'])
    fs = machines(r, c['n'])
    if c['empty'] and len(fs) > 1:
        fs[r.randrange(len(fs))] = {'n': 2, 'arcs': []}
    f, _ = ops.build(fs, {'kinds': c['kinds'], 'seed': c['seed']}, aux=c['aux'], grad=False)
    f = documented(k2.Fsa.from_dict({k: v for k, v in f.as_dict().items()}))
    x = to_x(f)
    for i, op in enumerate(c['ops']):
        what = f"{i} {op} {c}"
        if op == 'invert':
            if 'aux_labels' not in dict(f.named_tensor_attr()):
                continue
            before, twin = f.clone(), x.copy()
            x.invert()
            rg = isinstance(f.aux_labels, k2.RaggedTensor)
            f = k2.invert(f)
            if rg:  # no label is an empty list, and arcs that are new have 0
                made = [n for n, v in f.named_tensor_attr(include_scores=False) if not isinstance(v, k2.RaggedTensor) and n != 'aux_labels']
                zeros = {n: getattr(f, n) for n in made}
                _, amap = k2.invert(before, ret_arc_map=True)
                for n, v in zeros.items():
                    setattr(f, n, torch.where(amap == -1, torch.zeros_like(v), v))
                f.aux_labels = attrs.rag([[v] if v else [] for v in f.aux_labels.tolist()])
            untouched(twin, before, what + ' copy')
        elif op in ('arc_sort', 'connect', 'top_sort'):
            before, twin = f.clone(), x.copy()
            if op == 'top_sort' and not all(ops.loops_only({'n': n, 'arcs': [[q[0], q[1], q[2], 0] for q in a]}) and n >= 2 for n, a in F.rd(f)):
                continue
            getattr(x, op)()
            f = getattr(k2, op)(f)
            untouched(twin, before, what + ' copy')
        elif op == 'shortest_path':
            if not all(a[1] > a[0] for n, arcs in F.rd(f) for a in arcs):
                continue
            before = f.clone()
            y = X.api_shortest(x) if r.random() < .5 else X.shortest_path(x)
            f = k2.shortest_path(f, False)
            untouched(x, before, what + ' argument')
            # ties: scores are compared, and the paths are paths of the same arcs
            check_all_close(f.get_tot_scores(False, False).tolist(), X.tot_scores(y, False, False), what)
            same(y, f, what)
            x = y
        elif op == 'linear':
            if not all(a[1] == a[0] + 1 for n, arcs in F.rd(f) for a in arcs) or any(n < 2 for n, _ in F.rd(f)):
                continue
            y = X.linear_loops(x)
            same(y, k2.linear_fsa_with_self_loops(f), what, ignore=[n for n, _ in f.named_tensor_attr()])
            check_eq((y.get()[2], y.get()[3]), ({}, {}), what)
        elif op == 'texts':
            if 'aux_labels' not in dict(f.named_tensor_attr()):
                continue
            check_eq(X.texts(x), k2.get_aux_labels(f), what)
        elif op == 'tot':
            if not all(a[1] > a[0] for n, arcs in F.rd(f) for a in arcs):
                continue
            for log, dbl in itertools.product([False, True], repeat=2):
                check_all_close(X.tot_scores(x, log, dbl), f.get_tot_scores(dbl, log).tolist(), what, rtol=1e-5, atol=1e-4)
        elif op == 'scale':
            names = [n for n, v in f.named_tensor_attr() if not isinstance(v, k2.RaggedTensor) and v.dtype in (torch.float32, torch.float64)]
            n = r.choice(names)
            k = r.choice([0.5, 2.0, -1.0])
            X.scale(x, k, n)
            setattr(f, n, getattr(f, n) * k)
        elif op == 'labels':
            new = torch.tensor([l if l == -1 else r.randint(0, 4) for l in f.labels.tolist()], dtype=torch.int32)
            x.set_labels(new) if r.random() < .5 else X.set_attr(x, 'labels', new)
            f = f.clone()
            f.labels = new
            check_eq(X.get_attr(x, 'labels').tolist(), new.tolist(), what)
        elif op == 'scores':
            new = torch.tensor([r.randint(-24, 24) / 8 for _ in range(f.num_arcs)])
            x.set_scores(new) if r.random() < .5 else X.set_attr(x, 'scores', new)
            f = f.clone()
            f.scores = new
            check_eq(X.get_attr(x, 'scores').tolist(), new.tolist(), what)
        elif op == 'attr':
            new = torch.tensor([r.randint(-24, 24) / 8 for _ in range(f.num_arcs)])
            X.set_attr(x, 'fresh', new)
            f.fresh = new
            check_eq(X.get_attr(x, 'fresh').tolist(), new.tolist(), what)
        else:
            m = r.randint(1, 3)
            gs = machines(r, m, 2, 4)
            g, _ = ops.build(gs, {'kinds': ['i'], 'seed': c['seed'] + 1}, grad=False, tag=f'b{i}')
            srt = r.random() < .5
            if srt:
                x.arc_sort()
                f = k2.arc_sort(f)
            if f.num_arcs > 60:
                continue
            mp = [r.randrange(len(F.rd(f))) for _ in range(m)]
            x = X.intersect_device(x, to_x(g), mp, srt)
            f = k2.intersect_device(f, g, torch.tensor(mp, dtype=torch.int32), sorted_match_a=srt)
        same(x, f, what)
    return f.num_arcs > 0, list(c['ops'])


# ------------------------------------------------------------------ lattices
def lattice_case():
    return st.fixed_dictionaries({'B': st.integers(1, 3), 'T': st.integers(1, 6), 'C': st.integers(2, 4), 'graph': st.sampled_from(['topo', 'modified', 'random', 'random', 'many']),
                                  'kinds': KIND, 'aux': st.sampled_from(['plain', 'ragged']), 'sb': st.sampled_from([1.0, 20.0]), 'ob': st.sampled_from([1.0, 8.0]),
                                  'min': st.sampled_from([0, 1, 30]), 'max': st.sampled_from([31, 1000]), 'sub': st.integers(1, 3), 'api': st.booleans(), 'seed': st.integers(0, 10**6)})


def run_lattice(c):
    r = random.Random(c['seed'])
    B, T, C = c['B'], c['T'], c['C']
    x = D.tensor(D.matrix(r, B, T, C))
    if c['graph'] in ('topo', 'modified'):
        g = k2.ctc_topo(C - 1, modified=c['graph'] == 'modified')
        h = X.ctc_topo(C - 1, c['graph'] == 'modified', c['api'])
        g.labels  # Python gives the aux labels a name in the graph
        same(h, g, 'topology')
    else:
        fs = [D.graph(r, C) for _ in range(B if c['graph'] == 'many' else 1)]
        g, _ = ops.build(fs, {'kinds': c['kinds'], 'seed': c['seed']}, aux=c['aux'], grad=False)
        g = k2.Fsa.from_dict(dict(g.as_dict()))
        h = to_x(g)
    lens = [r.randint(1, T + (c['sub'] - 1 if r.random() < .3 else 0)) for _ in range(B)]
    seg = torch.tensor([[i, 0, n] for i, n in enumerate(lens)], dtype=torch.int32)
    if c['api']:
        y = X.api_lattice(x, torch.tensor(lens, dtype=r.choice([torch.int32, torch.int64])), h, c['sb'], c['ob'], c['min'], c['max'], c['sub'])
    else:
        if len(lens) > 1 and c['graph'] != 'many' and r.random() < .5:
            seg = seg[r.sample(range(B), B)].contiguous()
        y = X.get_lattice(x, h, seg, c['sb'], c['ob'], c['min'], c['max'], c['sub'])
    want = k2.intersect_dense_pruned(g, k2.DenseFsaVec(x, seg, allow_truncate=c['sub'] - 1), c['sb'], c['ob'], c['min'], c['max'])
    same(y, want, 'lattice')
    if c['api']:
        l2 = k2.get_lattice(x, torch.tensor(lens), g, c['sb'], c['ob'], c['min'], c['max'], c['sub'])
        same(y, l2, 'get_lattice')
    best = k2.shortest_path(want, True)
    check_all_close(X.tot_scores(X.shortest_path(y), False, True), best.get_tot_scores(True, False).tolist(), 'best score', c, rtol=1e-5, atol=1e-4)
    one = X.best_paths(y, True, 10, 1.0)
    check_eq(X.best_path(y), X.texts(one), 'texts', c)
    check_eq(X.best_path(y), k2.get_aux_labels(k2.shortest_path(want, False)), 'texts of Python', c)
    same(y, want, 'lattice afterwards')
    n = g.arcs.shape().dim0 if g.arcs.shape().num_axes == 3 else 1
    if n in (1, B):
        z = X.pruned(h, x, torch.tensor([[i, 0, min(k, T)] for i, k in enumerate(lens)], dtype=torch.int32), c['sb'], c['ob'], c['min'], c['max'], True)
        w = k2.intersect_dense_pruned(g, k2.DenseFsaVec(x, torch.tensor([[i, 0, min(k, T)] for i, k in enumerate(lens)], dtype=torch.int32)), c['sb'], c['ob'], c['min'], c['max'], allow_partial=True)
        same(z, w, 'partial')
    return want.num_arcs > 0, [c['graph'], f'aux:{c["aux"]}', 'api' if c['api'] else 'plain']


# ------------------------------------------------------------------ rescoring
def rescore_case():
    return st.fixed_dictionaries({'n': st.integers(1, 3), 'words': st.integers(2, 4), 'aux': st.sampled_from(['plain', 'ragged']), 'kinds': st.lists(st.sampled_from(['f', 'i', 'rag']), max_size=2, unique=True),
                                  'scale': st.sampled_from([1.0, 1.0, 0.5, 2.0]), 'states': st.integers(2, 4), 'seed': st.integers(0, 10**6)})


def grammar(r, words, n):
    """An arc-sorted acceptor with a final state, scores in eighths."""
    arcs = []
    for s in range(n - 1):
        for w in range(1, words + 1):
            if r.random() < .8:
                arcs.append([s, r.randrange(n - 1), w, r.randint(-24, 8)])
        if s == 0 or r.random() < .7:
            arcs.append([s, n - 1, -1, r.randint(-8, 0)])
    arcs.sort(key=lambda a: a[0])
    g = F.mk_vec([{'n': n, 'arcs': arcs}])
    g = k2.arc_sort(k2.add_epsilon_self_loops(g))
    g.lm_scores = g.scores.clone()
    return g


def run_rescore(c):
    r = random.Random(c['seed'])
    fs = machines(r, c['n'], 3, 6, eps=False)
    f, _ = ops.build(fs, {'kinds': c['kinds'], 'seed': c['seed']}, aux=c['aux'], grad=False)
    f = k2.Fsa.from_dict({k: v for k, v in f.as_dict().items() if not k.endswith('_filler')})
    if c['aux'] == 'plain':
        f.aux_labels = torch.tensor([-1 if l == -1 else r.randint(0, c['words']) for l in f.labels.tolist()], dtype=torch.int32)
    else:
        f.aux_labels = attrs.rag([[r.randint(1, c['words']) for _ in range(r.choice([0, 1, 1, 2]))] for _ in range(f.num_arcs)])
    f = documented(f)
    f.lm_scores = torch.tensor([r.randint(-16, 8) / 8 for _ in range(f.num_arcs)])
    g = grammar(r, c['words'], c['states'])
    x, y = to_x(f), to_x(g)
    X.rescore(y, c['scale'], x)
    want = k2.nbest.whole_lattice_rescoring(f, g)
    if c['scale'] != 1:
        want.scores = (want.scores - want.lm_scores) / c['scale'] + want.lm_scores
    if c['aux'] == 'ragged':  # the C++ library keeps them as lists, with nothing for 0
        want.aux_labels = attrs.rag([[v] if v else [] for v in want.aux_labels.tolist()])
    same(x, want, 'rescored')
    same(y, g, 'grammar')
    return want.num_arcs > 0, [f'aux:{c["aux"]}', f'scale:{c["scale"]}']


# ------------------------------------------------------------------ n-best
def nbest_case():
    return st.fixed_dictionaries({'n': st.integers(1, 3), 'aux': st.sampled_from(['plain', 'ragged']), 'seed': st.integers(0, 10**6), 'num': st.sampled_from([2, 3, 50]), 'scale': st.sampled_from([0.25, 1.0]),
                                  'lm': st.booleans(), 'extra': st.booleans()})


def all_paths(n, arcs, limit=40):
    out, adj = [], {}
    for i, a in enumerate(arcs):
        adj.setdefault(a[0], []).append(i)
    stack = [(0, [])]
    while stack:
        s, p = stack.pop()
        if s == n - 1:
            out.append(p)
            if len(out) > limit:
                return None
            continue
        for i in adj.get(s, []):
            stack.append((arcs[i][1], p + [i]))
    return out


def small_lattices(c, r, n, limit=40):
    """Connected acyclic machines that have at most `limit` paths, with words."""
    fs = []
    while len(fs) < n:
        x = gen.rand_fsa(r, r.randint(3, 5), r.randint(0, 5), eps=False)
        f = k2.top_sort(k2.connect(F.mk_vec([x])))
        (m, arcs), = F.rd(f)
        sc = f.scores.tolist()
        if m < 2 or not all_paths(m, arcs, limit):
            fs.append({'n': 2, 'arcs': [[0, 1, -1, 0]]})
        else:
            fs.append({'n': m, 'arcs': [[a[0], a[1], a[2] if a[2] <= 0 else a[2], r.randint(-8, 8)] for a in arcs]})
    f, _ = ops.build(fs, {'kinds': [], 'seed': c['seed']}, grad=False)
    f = k2.Fsa(f.arcs)
    if c['aux'] == 'plain':
        f.aux_labels = torch.tensor([-1 if l == -1 else r.randint(0, 3) for l in f.labels.tolist()], dtype=torch.int32)
    else:
        f.aux_labels = attrs.rag([[r.randint(1, 3) for _ in range(r.choice([0, 1, 1, 2]))] for _ in range(f.num_arcs)])
    return documented(f)


def describe(f):
    """For every member: [(tokens, words, score, lm)] of its paths."""
    out, o = [], 0
    sc = f.scores.tolist()
    aux = f.aux_labels.tolist()
    lm = f.lm_scores.tolist() if hasattr(f, 'lm_scores') else [0.0] * f.num_arcs
    for n, arcs in F.rd(f):
        rows = []
        for p in (all_paths(n, arcs) or []) if n else []:
            words = []
            for i in p:
                v = aux[o + i]
                words += [w for w in (v if isinstance(v, list) else [v]) if w > 0]
            rows.append((tuple(arcs[i][2] for i in p), tuple(words), sum(sc[o + i] for i in p), sum(lm[o + i] for i in p), tuple(tuple(aux[o + i]) if isinstance(aux[o + i], list) else aux[o + i] for i in p)))
        out.append(rows)
        o += len(arcs)
    return out


def linear_rows(x, words_key='aux_labels'):
    """[(labels, aux per arc)] of linear machines of the C++ library."""
    splits, arcs, t, l, _ = x.get()
    aux = t[words_key].tolist() if words_key in t else l[words_key]
    out, sc = [], x.scores().tolist()
    lm = t['lm_scores'].tolist() if 'lm_scores' in t else None
    for k in range(len(splits[0]) - 1):
        a, b = splits[1][splits[0][k]], splits[1][splits[0][k + 1]]
        rows = arcs[a:b].tolist()
        check_eq([(q[0], q[1]) for q in rows], [(i, i + 1) for i in range(b - a)], 'linear')
        out.append((tuple(q[2] for q in rows), tuple(tuple(v) if isinstance(v, list) else v for v in aux[a:b]), sum(sc[a:b]), sum(lm[a:b]) if lm else 0.0))
    return out


def run_nbest(c):
    r = random.Random(c['seed'])
    f = small_lattices(c, r, c['n'])
    if c['lm']:
        f.lm_scores = torch.tensor([r.randint(-8, 8) / 8 for _ in range(f.num_arcs)])
    if c['extra']:
        f.other = torch.tensor([r.randint(0, 9) for _ in range(f.num_arcs)], dtype=torch.int32)
    rows = describe(f)
    x = to_x(f)
    nb = X.nbest(x, c['num'], c['scale'])
    same(x, f, 'lattice')
    sp = nb.splits()
    got = linear_rows(nb.fsa)
    check_eq((len(sp) - 1, sp[-1]), (c['n'], len(got)), 'shape')
    check_eq(nb.str(), f'Nbest(num_utterances={c["n"]}, num_paths={len(got)})', 'text')
    for u in range(c['n']):
        mine = got[sp[u]:sp[u + 1]]
        words = []
        have = {(p[0], p[4]) for p in rows[u]}
        for lab, aux, sc, _ in mine:
            check((lab, aux) in have, 'not a path of the lattice', lab, aux, rows[u], c)
            check_eq(sc, 0.0, 'scores', c)
            words.append(tuple(w for v in aux for w in (v if isinstance(v, tuple) else (v,)) if w > 0))
        check_eq(len(set(words)), len(words), 'repeated words', words, c)
        check(bool(words) == bool(rows[u]), 'no path', c)
    nb.intersect(x.copy())
    after = linear_rows(nb.fsa)
    check_eq(len(after), len(got), 'paths', c)
    for u in range(c['n']):
        for k in range(sp[u], sp[u + 1]):
            want = tuple(w for v in got[k][1] for w in (v if isinstance(v, tuple) else (v,)) if w > 0)
            best = max(p[2] for p in rows[u] if p[1] == want)
            mine = tuple(w for v in after[k][1] for w in (v if isinstance(v, tuple) else (v,)) if w > 0)
            check_eq(mine, want, 'words after', c)
            check_close(after[k][2], best, 'score', c)
            check((after[k][0]) in [tuple(q for q in p[0]) for p in rows[u]] or c['aux'] == 'ragged', 'tokens', after[k], c)
    if c['lm']:
        am, lm = nb.am().tolist(), nb.lm().tolist()
        check_all_close(lm, [p[3] for p in after], 'lm', c)
        check_all_close([a + b for a, b in zip(am, lm)], [p[2] for p in after], 'am + lm', c)
    return len(got) > c['n'], [f'aux:{c["aux"]}', 'lm' if c['lm'] else 'plain']


def best_case():
    return st.fixed_dictionaries({'n': st.integers(1, 3), 'aux': st.sampled_from(['plain', 'ragged']), 'seed': st.integers(0, 10**6), 'lm': st.booleans()})


def run_best(c):
    r = random.Random(c['seed'])
    f = small_lattices(c, r, c['n'], limit=5)
    f.scores = f.scores / 4    # the sampling reaches every path
    if c['lm']:
        f.lm_scores = torch.tensor([r.randint(-8, 8) / 8 for _ in range(f.num_arcs)])
    rows = describe(f)
    x = to_x(f)
    twin = x.copy()
    y = X.best_paths(x, False, 800, 0.5)
    same(twin, f, 'copy of the lattice')
    same(x, f, 'lattice')
    got = linear_rows(y)
    check_eq(len(got), c['n'], 'utterances')
    for u, (lab, aux, _, _) in enumerate(got):
        tot = {}
        for p in rows[u]:
            tot[p[1]] = math.log(math.exp(tot.get(p[1], NEG)) + math.exp(p[2])) if p[1] in tot else p[2]
        words = tuple(w for v in aux for w in (v if isinstance(v, tuple) else (v,)) if w > 0)
        check(words in tot, 'words', words, c)
        check(tot[words] >= max(tot.values()) - 1e-3, 'not the best words', words, tot, c)
        check((lab, aux) in [(p[0], p[4]) for p in rows[u]], 'not a path', lab, aux, rows[u], c)
    return any(len(q) > 1 for q in rows), [f'aux:{c["aux"]}']


# ------------------------------------------------------------------ RNN-T
def rnnt_case():
    return st.fixed_dictionaries({'graphs': st.integers(1, 3), 'V': st.integers(2, 4), 'hist': st.integers(1, 2), 'beam': st.sampled_from([1.0, 8.0, 100.0]), 'ctx': st.sampled_from([1, 2, 8]),
                                  'states': st.sampled_from([1, 2, 64]), 'T': st.integers(1, 4), 'kinds': st.lists(st.sampled_from(['f', 'd', 'i', 'rag']), max_size=4, unique=True), 'mixed': st.booleans(),
                                  'aux': st.sampled_from([None, 'plain', 'ragged']), 'trivial': st.booleans(), 'partial': st.booleans(), 'seed': st.integers(0, 10**6), 'double': st.booleans()})


def run_rnnt(c):
    r = random.Random(c['seed'])
    V = c['V']
    gs, hs = [], []
    for k in range(c['graphs']):
        if c['trivial']:
            gs.append(k2.trivial_graph(V - 1))
            hs.append(X.trivial_graph(V - 1, k % 2 == 0))
            same(hs[-1], gs[-1], 'trivial graph')
            continue
        n = r.randint(2, 4)
        arcs = [[s, r.randrange(n - 1), r.randint(1, V - 1), r.randint(-8, 8)] for s in range(n - 1) for _ in range(r.randint(1, 3))]
        arcs += [[s, n - 1, -1, r.randint(-4, 4)] for s in range(n - 1) if s == n - 2 or r.random() < .6]
        arcs.sort(key=lambda a: (a[0], a[2] & 0xffffffff))
        kinds = c['kinds'] if not c['mixed'] else [q for q in c['kinds'] if r.random() < .6]
        g, _ = ops.build([{'n': n, 'arcs': arcs}], {'kinds': kinds, 'seed': c['seed'] + k}, aux=c['aux'], grad=False)
        g = k2.Fsa.from_dict({a: b for a, b in g[0].as_dict().items() if not a.endswith('_filler')})
        gs.append(g)
        hs.append(to_x(g))
    cfg = k2.RnntDecodingConfig(vocab_size=V, decoder_history_len=c['hist'], beam=c['beam'], max_contexts=c['ctx'], max_states=c['states'])
    which = [r.randrange(c['graphs']) for _ in range(r.randint(1, 4))]
    ps = k2.RnntDecodingStreams([k2.RnntDecodingStream(gs[i]) for i in which], cfg)
    xs = X.streams([X.stream(hs[i]) for i in which], V, c['hist'], c['beam'], c['ctx'], c['states'])
    for t in range(c['T']):
        sh, ctx = ps.get_contexts()
        rs, ids, tot, xc = X.contexts(xs)
        check_eq(rs.tolist(), sh.row_splits(1).tolist(), 'splits', t, c)
        check_eq(ids.tolist(), sh.row_ids(1).tolist(), 'ids', t, c)
        check_eq(tot, sh.tot_size(1), 'size', t, c)
        check_eq(xc.tolist(), ctx.tolist(), 'contexts', t, c)
        lp = torch.tensor([[r.randint(-64, 0) / 8 for _ in range(V)] for _ in range(ctx.shape[0])], dtype=torch.float32).reshape(-1, V)
        ps.advance(lp)
        X.advance(xs, lp.double() if c['double'] else lp)
    ps.terminate_and_flush_to_streams()
    X.flush(xs)
    frames = [r.randint(1, c['T']) for _ in which] if r.random() < .7 else [c['T']] * len(which)
    want = ps.format_output(frames, allow_partial=c['partial'])
    got = X.format(xs, frames, c['partial'])
    dup = [n for n, v in want.named_tensor_attr()]
    missing = [n for n in set(got.get()[2]) | set(got.get()[3]) if n not in dup]
    if c['mixed'] and missing:
        # Python keeps the attributes that all graphs have; C++ documents the union, with 0 and [] where there are none
        rs = got.get()[0]
        st0 = [rs[1][q] for q in rs[0]]
        for n in missing:
            vals = got.get()[2][n].tolist() if n in got.get()[2] else got.get()[3][n]
            for k, i in enumerate(which):
                if not hasattr(gs[i], n):
                    check(all(not v for v in vals[st0[k]:st0[k + 1]]), 'filler', n, vals, c)
    else:
        check_eq(missing, [], 'attributes', c)
    same(got, want, 'lattice', ignore=missing)
    return want.num_arcs > 0, ['trivial' if c['trivial'] else 'graph', f'attrs:{len(dup)}', f'aux:{c["aux"]}']


# ------------------------------------------------------------------ dense
def dense_case():
    return st.fixed_dictionaries({'N': st.integers(1, 3), 'T': st.integers(1, 5), 'C': st.integers(1, 4), 'segs': st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(0, 9)), min_size=1, max_size=4),
                                  'trunc': st.integers(0, 3), 'bad': st.booleans(), 'seed': st.integers(0, 10**6)})


def run_dense(c):
    r = random.Random(c['seed'])
    N, T, C, k = c['N'], c['T'], c['C'], c['trunc']
    x = torch.tensor([[[r.randint(-80, 8) / 8 for _ in range(C)] for _ in range(T)] for _ in range(N)], dtype=torch.float32).reshape(N, T, C)
    if c['bad']:
        seg = [[a % (N + 1), b % (T + 1), d] for a, b, d in c['segs']]
    else:
        seg = [[a % N, b % T, min(d, T + k - b % T)] for a, b, d in c['segs']]
    t = torch.tensor(seg, dtype=torch.int32)
    ok = all(0 <= a < N and 0 <= b < T and b + d <= T + k for a, b, d in seg)
    if not ok:
        raises(lambda: X.dense(x, t, k), 'accepted', c)
        return True, ['refused']
    splits, sc = X.dense(x, t, k)
    want, off = [], [0]
    for a, b, d in seg:
        want += [[NEG] + x[a, i].tolist() for i in range(b, min(b + d, T))] + [[0.0] + [NEG] * C]
        off.append(len(want))
    check_eq(splits, off, 'splits', c)
    check_eq(sc.tolist(), want, 'scores', c)
    p = k2.DenseFsaVec(x, t, allow_truncate=k)
    check_eq(p.scores.tolist(), want, 'Python', c)
    sub = r.randint(1, 4)
    cols = [torch.tensor(v, dtype=torch.int32) for v in zip(*[(a, b * r.randint(1, 3), d * 5) for a, b, d in seg])]
    got = X.segments(*cols, sub)
    check_eq(got.tolist(), [[a, b // sub, d // sub] for a, b, d in zip(*[v.tolist() for v in cols])], 'segments', c)
    return len(want) > len(seg), ['accepted']


# ------------------------------------------------------------------ beam search
class Decoder(torch.nn.Module):
    def __init__(self, V: int, context: int, blank: int, unk: int, g: torch.Generator):
        super().__init__()
        self.blank_id = blank
        self.context_size = context
        self.unk_id = unk
        self.register_buffer('table', torch.randn(context, V, 6, generator=g))

    def forward(self, y: torch.Tensor, need_pad: bool = True) -> torch.Tensor:
        out = torch.zeros(y.shape[0], 6)
        for i in range(y.shape[1]):
            out = out + self.table[i][y[:, i]]
        return out.unsqueeze(1)


class Joiner(torch.nn.Module):
    def __init__(self, V: int, g: torch.Generator):
        super().__init__()
        self.encoder_proj = torch.nn.Linear(4, 6)
        self.decoder_proj = torch.nn.Linear(6, 6)
        self.out = torch.nn.Linear(6, V)
        for p in self.parameters():
            p.data = torch.randn(p.shape, generator=g)

    def forward(self, e: torch.Tensor, d: torch.Tensor, project_input: bool = True) -> torch.Tensor:
        if project_input:
            h = self.encoder_proj(e) + self.decoder_proj(d)
        else:
            h = e + d
        return self.out(torch.tanh(h))


class Model(torch.nn.Module):
    def __init__(self, V: int, context: int, blank: int, unk: int, seed: int):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.decoder = Decoder(V, context, blank, unk, g)
        self.joiner = Joiner(V, g)


MODELS = {}


def model(V, context, blank, unk, seed):
    k = (V, context, blank, unk, seed)
    if k not in MODELS:
        m = Model(*k).eval()
        f = path('model-' + '-'.join(map(str, k)) + '.pt')
        torch.jit.script(m).save(f)
        MODELS[k] = (m, f)
    return MODELS[k]


def beam_case():
    return st.fixed_dictionaries({'V': st.sampled_from([4, 6]), 'context': st.sampled_from([1, 2]), 'blank': st.sampled_from([0, 0, 1]), 'unk': st.sampled_from([-1, 2]), 'model': st.integers(0, 1),
                                  'lens': st.lists(st.integers(1, 6), min_size=1, max_size=4), 'beam': st.sampled_from([1, 2, 4]), 'seed': st.integers(0, 10**6)})


def run_beam(c):
    m, file = model(c['V'], c['context'], c['blank'], c['unk'], c['model'])
    B, T = len(c['lens']), max(c['lens'])
    x = torch.randn(B, T, 4, generator=torch.Generator().manual_seed(c['seed'])) * 2
    lens = torch.tensor(c['lens'])
    skip = {c['blank'], c['unk']}
    with torch.no_grad():
        def logits(e, hyps):
            y = torch.tensor([h[-c['context']:] for h in hyps])
            return m.joiner(e.reshape(1, 1, 1, 4).expand(len(hyps), 1, 1, 4), m.decoder(y).unsqueeze(1))[:, 0, 0]
        clear, want = True, []
        for b, n in enumerate(c['lens']):
            h = [c['blank']] * c['context']
            for t in range(n):
                v, i = logits(x[b, t], [h])[0].topk(2)
                clear = clear and float(v[0] - v[1]) > 1e-3
                if int(i[0]) not in skip:
                    h = h + [int(i[0])]
            want.append(h[c['context']:])
        if clear:
            check_eq(X.greedy(file, x, lens), want, 'greedy', c)
        sure, want2 = True, []
        for b, n in enumerate(c['lens']):
            hyps = {tuple([c['blank']] * c['context']): 0.0}
            for t in range(n):
                keys = list(hyps)
                lp = logits(x[b, t], [list(k) for k in keys]).log_softmax(-1) + torch.tensor([hyps[k] for k in keys]).reshape(-1, 1)
                flat = sorted(((float(lp[i, j]), i, j) for i in range(len(keys)) for j in range(c['V'])), reverse=True)
                if len(flat) > c['beam'] and flat[c['beam'] - 1][0] - flat[c['beam']][0] < 1e-3:
                    sure = False
                new = {}
                for s, i, j in flat[:c['beam']]:
                    k = keys[i] + (() if j in skip else (j,))
                    new[k] = s if k not in new else math.log(math.exp(new[k] - s) + 1) + s
                hyps = new
            order = sorted(((s / len(k), k) for k, s in hyps.items()), reverse=True)
            if len(order) > 1 and order[0][0] - order[1][0] < 1e-3:
                sure = False
            want2.append(list(order[0][1][c['context']:]))
        if sure:
            check_eq(X.beam(file, x, lens, c['beam']), want2, 'beam search', c)
    return (clear and any(want)) or (sure and any(want2)), ['greedy' if clear else 'close', f'beam:{c["beam"]}']


# ------------------------------------------------------------------ tools
SYM = st.text(alphabet=st.sampled_from('ab▁é<>#0'), min_size=1, max_size=4)


def tool_case():
    return st.one_of(
        st.fixed_dictionaries({'kind': st.just('wave'), 'data': st.lists(st.integers(-32768, 32767), max_size=20), 'rate': st.sampled_from([8000, 16000, 44100]),
                               'extra': st.lists(st.tuples(st.sampled_from(['LIST', 'fact', 'abcd']), st.integers(0, 9)), max_size=3), 'after': st.booleans(), 'stream': st.booleans(),
                               'bad': st.sampled_from([None, None, None, 'RIFF', 'WAVE', 'format', 'channels', 'bits', 'short', 'header'])}),
        st.fixed_dictionaries({'kind': st.just('symbols'), 'table': st.lists(st.tuples(SYM, st.integers(-1, 30)), max_size=6), 'sep': st.sampled_from([' ', '\t', '  ']), 'end': st.booleans()}),
        st.fixed_dictionaries({'kind': st.just('hyps'), 'add': st.lists(st.tuples(st.lists(st.integers(0, 12), min_size=1, max_size=3), st.integers(-80, 8)), max_size=8),
                               'remove': st.lists(st.lists(st.integers(0, 12), min_size=1, max_size=2), max_size=2)}),
        st.fixed_dictionaries({'kind': st.just('options'), 'args': st.lists(st.sampled_from(['int', 'uint', 'float', 'double', 'bool', 'str', 'pos']), max_size=6), 'seed': st.integers(0, 10**6),
                               'config': st.booleans(), 'dash': st.booleans(), 'wrong': st.sampled_from([None, None, None, 'name', 'value', 'bool'])}),
        st.fixed_dictionaries({'kind': st.just('tensors'), 'src': st.lists(st.integers(-9, 9), min_size=1, max_size=6), 'idx': st.lists(st.integers(-1, 5), max_size=6), 'dtype': st.sampled_from(['f', 'd', 'i']),
                               'strided': st.booleans(), 'sum': st.lists(st.integers(0, 9), min_size=1, max_size=6)}))


def run_tool(c):
    return {'wave': run_wave, 'symbols': run_symbols, 'hyps': run_hyps, 'options': run_options, 'tensors': run_tensors}[c['kind']](c)


def run_wave(c):
    body = b''
    for name, n in c['extra']:
        body += name.encode() + struct.pack('<i', n) + bytes(range(n)) + (b'\0' if n % 2 else b'')
    data = struct.pack(f'<{len(c["data"])}h', *c['data'])
    n = len(data)
    bad = c['bad']
    if bad == 'short' and n:
        data = data[:-1]
    tail = body + b'data' + struct.pack('<i', n) + data + (b'LIST' + struct.pack('<i', 4) + b'abcd' if c['after'] and bad != 'short' else b'')
    ch = 2 if bad == 'channels' else 1
    bits = 8 if bad == 'bits' else 16
    fmt = struct.pack('<ihhiihh', 16, 3 if bad == 'format' else 1, ch, c['rate'], c['rate'] * ch * bits // 8, ch * bits // 8, bits)
    w = (b'RIFX' if bad == 'RIFF' else b'RIFF') + struct.pack('<i', 28 + len(tail)) + (b'WAVX' if bad == 'WAVE' else b'WAVE') + b'fmt ' + fmt + tail
    if bad == 'header':
        w = w[:30]
    name = path('a.wav')
    with open(name, 'wb') as f:
        f.write(w)
    if bad and not (bad == 'short' and not n):
        raises(lambda: X.wave(name, c['stream']), 'accepted', c)
        return True, ['wave', 'refused']
    x, rate = X.wave(name, c['stream'])
    check_eq((rate, str(x.dtype), x.tolist()), (float(c['rate']), 'torch.float32', [v / 32768 for v in c['data']]), 'wave', c)
    check_eq([v.tolist() for v in X.waves([name, name], float(c['rate']))], [x.tolist()] * 2, 'waves', c)
    raises(lambda: X.waves([name], float(c['rate'] + 1)), 'rate', c)
    return n > 0, ['wave']


def run_symbols(c):
    name = path('sym.txt')
    text = '\n'.join(f'{s}{c["sep"]}{i}' for s, i in c['table']) + ('\n' if c['end'] else '')
    with open(name, 'w') as f:
        f.write(text)
    # a BPE boundary at the start of a piece reads as a space
    table = [(' ' + s[1:] if s[0] == '▁' else s, i) for s, i in c['table']]
    syms, ids = [s for s, _ in table], [i for _, i in table]
    if len(set(syms)) < len(syms) or len(set(ids)) < len(ids):
        raises(lambda: X.symbols(name, [], []), 'accepted', c)
        return True, ['symbols', 'refused']
    a, b, text = X.symbols(name, ids + [99], syms + ['zz'])
    check_eq([v.decode() for v in a], syms + ['<missing>'], 'symbols', c)
    check_eq(b, ids + [-12345], 'ids', c)
    check_eq(sorted(text.decode().splitlines()), sorted(f'{s} {i}' for s, i in table), 'text', c)
    return bool(table), ['symbols']


def run_hyps(c):
    ref = {}
    for ys, w in c['add']:
        k, v = tuple(ys), w / 8
        ref[k] = v if k not in ref else math.log(math.exp(ref[k]) + math.exp(v))
    for ys in c['remove']:
        ref.pop(tuple(ys), None)
    every, size, plain, norm = X.hyps([(ys, w / 8) for ys, w in c['add']], c['remove'])
    check_eq(size, len(ref), 'size', c)
    got = {tuple(k): v for k, v in every}
    check_eq(sorted(got), sorted(ref), 'hypotheses', c)
    for k in ref:
        check_close(got[k], ref[k], 'score', c, rtol=1e-9, atol=1e-9)
    if ref:
        check_close(ref[tuple(plain)], max(ref.values()), 'best', c, atol=1e-9)
        check_close(ref[tuple(norm)] / len(norm), max(v / len(k) for k, v in ref.items()), 'best normalised', c, atol=1e-9)
    return len(ref) > 1, ['hyps']


def run_options(c):
    r = random.Random(c['seed'])
    val = {'int': 7, 'uint': 8, 'float': 0.5, 'double': 0.25, 'bool': False, 'str': 'default'}

    def name(k):
        s = 'my-' + k
        if r.random() < .3:
            s = s.replace('-', '_')
        return s.upper() if r.random() < .2 else s

    def opt(k):
        if k == 'int':
            v = r.choice([0, -5, 12, 2**31 - 1, -2**31])
            t = str(v)
        elif k == 'uint':
            v = r.choice([0, 3, 2**32 - 1])
            t = str(v)
        elif k in ('float', 'double'):
            v = r.choice([0.0, -1.5, 1024.0, 0.125, 3e10])
            t = r.choice([repr(v), '%g' % v])
        elif k == 'bool':
            v = r.random() < .6
            if v and r.random() < .4:
                val[k] = True
                return f'--{name(k)}'
            t = r.choice(['true', 't', '1'] if v else ['false', 'f', '0'])
        else:
            v = r.choice(['', 'x', 'a=b', 'two words', '--int=3'])
            t = v
        val[k] = v
        return f'--{name(k)}={t}'
    lines = []
    if c['config']:
        for k in [q for q in c['args'] if q != 'pos'][:3]:
            if k == 'str':
                val['str'] = 'from-file'
                lines.append('--my-str=from-file' + r.choice(['', '  # comment']))
            else:
                lines.append(opt(k) + r.choice(['', '  # comment']))
        if r.random() < .5:
            lines.append('# nothing here')
        with open(path('po.conf'), 'w') as f:
            f.write('\n'.join(lines) + '\n')
    args, rest = [], []
    kinds = list(c['args'])
    # options come before positional arguments
    for k in [q for q in kinds if q != 'pos']:
        args.append(opt(k))
    if c['config']:
        args.insert(r.randint(0, len(args)), '--config=' + path('po.conf'))
    if c['wrong'] == 'name':
        args.append('--my-other=3')
    elif c['wrong'] == 'value':
        args.append(r.choice(['--my-int=x', '--my-int=', '--my-int=1.5', '--my-int=2147483648', '--my-uint=-1', '--my-float=1x', '--my-double=a', '--my-int', '--my-uint=4294967296']))
    elif c['wrong'] == 'bool':
        args.append('--my-bool=maybe')
    if c['dash']:
        args.append('--')
    for i, k in enumerate([q for q in kinds if q == 'pos']):
        rest.append('--looks-like' if c['dash'] and i == 0 else f'pos{i}')
    if c['wrong']:
        raises(lambda: X.options(args + rest), 'accepted', args, c)
        return True, ['options', 'refused']
    got = X.options(args + rest)
    want = (val['int'], val['uint'], struct.unpack('f', struct.pack('f', val['float']))[0], val['double'], val['bool'], val['str'].encode(), rest)
    check_eq(got, want, 'options', args, c)
    return bool(args), ['options']


def run_tensors(c):
    dt = {'f': torch.float32, 'd': torch.float64, 'i': torch.int32}[c['dtype']]
    src = torch.tensor(c['src'], dtype=dt)
    if c['strided']:
        src = torch.stack([src, src * 0 + 77], 1)[:, 0]
    idx = [i if i < len(c['src']) else -1 for i in c['idx']]
    got = X.index_select(src, torch.tensor(idx, dtype=torch.int32), 5)
    check_eq((str(got.dtype), got.tolist()), (str(dt), [c['src'][i] if i >= 0 else 5 for i in idx]), 'index_select', c)
    s = X.exclusive_sum(torch.tensor(c['sum'], dtype=torch.int32)).tolist()
    check_eq(s, [sum(c['sum'][:i]) for i in range(len(c['sum']))], 'exclusive sum', c)
    return bool(idx), ['tensors']


SUBS = [Sub('load', load_case, run_load, 4800), Sub('ops', ops_case, run_ops, 6000), Sub('lattice', lattice_case, run_lattice, 4800), Sub('rescore', rescore_case, run_rescore, 2800),
        Sub('nbest', nbest_case, run_nbest, 3200), Sub('best', best_case, run_best, 1000), Sub('rnnt', rnnt_case, run_rnnt, 3200), Sub('dense', dense_case, run_dense, 2400),
        Sub('beam', beam_case, run_beam, 1000), Sub('tools', tool_case, run_tool, 10000)]
