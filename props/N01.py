"""N01: n-best lists, rescoring and the MWER loss."""
import math
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F
from vlib.core import Sub, check, check_eq, check_close, check_all_close
from props.C01 import ragged
from props.C02 import distance

TECHNIQUE = 'generated lattices with all their paths enumerated: n-best lists, top-k, rescoring and the MWER loss recomputed path by path'
NOTE = ('Which paths are sampled is that of k2.random_paths (checked in S04); of the paths with the same words the one sampled first is expected to stay, '
        'any of the sampled ones is accepted. Lattices are acyclic. Scores of paths tie only by chance; tied paths may come in any order.')
RULE = ('nbest: lattices with epsilons, plain or list-valued words, members without paths, scales, precisions, gradients, earlier results of the same lattice. '
        'topk: any k, also above the number of paths. intersect, rescore: against every pair of paths. mwer: references, temperatures, reductions, gradients. '
        'Non-trivial: at least two different word sequences.')

NEG = float('-inf')


def lattice(r, n, words, eps=0.2, dead=False, labels=3, dense=1.0):
    """{'n','arcs','aux'}: acyclic, every state on a path unless dead."""
    arcs = []
    if not dead:
        for s in range(n - 1):
            for _ in range(max(1, int(r.random() * 3 * dense))):
                d = r.randint(s + 1, n - 1)
                arcs.append([s, d])
        ins = {d for _, d in arcs}
        for d in range(1, n):
            if d not in ins:
                arcs.append([r.randrange(d), d])
    elif n > 2:
        arcs = [[0, d] for d in range(1, n - 1)]
    out = []
    for s, d in arcs:
        l = -1 if d == n - 1 else 0 if r.random() < eps else r.randint(1, labels)
        w = [r.randint(1, words) if r.random() < 0.7 else 0] if r.random() < 0.8 else [r.randint(1, words) for _ in range(r.choice([0, 0, 2, 3]))]
        out.append([s, d, l, 8 * float(torch.tensor(r.uniform(-3, 1))), w])
    out.sort(key=lambda a: (a[0], a[2] & 0xffffffff, a[1]))
    return {'n': n if n else 0, 'arcs': [a[:4] for a in out], 'aux': [a[4] for a in out]}


def attach(lats, kind):
    """The FsaVec with aux_labels; in the plain kind only the first word of an arc counts."""
    f = F.mk_vec(lats)
    if kind == 'ragged':
        v = [w + [-1] if a[2] == -1 else w for g in lats for a, w in zip(g['arcs'], g['aux'])]
        f.aux_labels = ragged(v)
    else:
        f.aux_labels = torch.tensor([-1 if a[2] == -1 else (w + [0])[0] for g in lats for a, w in zip(g['arcs'], g['aux'])], dtype=torch.int32)
    return f


def words_of(g, kind, path):
    out = []
    for i in path:
        w = g['aux'][i]
        if kind == 'ragged':
            out += w
        elif g['arcs'][i][2] != -1:
            out += w[:1]
    return tuple(v for v in out if v > 0)


def all_paths(g):
    """All complete paths as arc indexes."""
    n, out = g['n'], []
    if not n:
        return out
    leaving = [[] for _ in range(n)]
    for i, a in enumerate(g['arcs']):
        leaving[a[0]].append((i, a[1]))
    stack = [(0, ())]
    while stack:
        s, p = stack.pop()
        if s == n - 1:
            out.append(p)
            continue
        for i, d in leaving[s]:
            stack.append((d, p + (i,)))
    return out


def score(g, path):
    return sum(F.f8(g['arcs'][i][3]) for i in path)


def mass(g, scale):
    """{path: probability} with scaled scores."""
    ps = all_paths(g)
    if not ps:
        return {}
    v = [score(g, p) * scale for p in ps]
    m = max(v)
    z = sum(math.exp(x - m) for x in v)
    return {p: math.exp(x - m) / z for p, x in zip(ps, v)}


lat_args = dict(N=st.integers(1, 3), n=st.sampled_from([2, 3, 4, 4, 5, 6]), words=st.integers(1, 4), eps=st.sampled_from([0, 0.2, 0.6]), kind=st.sampled_from(['plain', 'ragged']),
                dead=st.sampled_from([0, 0, 0, 0.3]), seed=st.integers(0, 10**6), dbl=st.booleans(), scale=st.sampled_from([0.5, 1.0, 0.1, 2.0]),
                num=st.sampled_from([1, 2, 5, 20, 200]))


@st.composite
def nbest_case(draw):
    c = {k: draw(v) for k, v in lat_args.items()}
    return dict(c, grad=draw(st.sampled_from([None, 'leaf', 'inner'])), early=draw(st.booleans()))


def make(c, r):
    lats = [lattice(r, r.randint(2, c['n']), c['words'], c['eps'], r.random() < c['dead']) for _ in range(c['N'])]
    offs, o = [], 0
    for g in lats:
        offs.append(o)
        o += len(g['arcs'])
    return lats, offs


def check_nbest(nb, f, lats, offs, c, scale, what):
    """Per utterance the kept paths (arc indexes within the member)."""
    N = len(lats)
    check_eq(nb.shape.dim0, N, 'utterances', what)
    rs = nb.shape.row_splits(1).tolist()
    check_eq(nb.fsa.shape[0], rs[-1], 'paths', what)
    kept = nb.kept_path.tolist()
    check_eq(len(kept), rs[-1], 'kept_path', what)
    sampled = attach(lats, c['kind'])
    sampled.scores = sampled.scores * scale
    sp = k2.random_paths(sampled, use_double_scores=c['dbl'], num_paths=c['num']).tolist()
    fs = F.rd(nb.fsa)
    aux = nb.fsa.aux_labels.tolist()
    sc, o, out = nb.fsa.scores.tolist(), 0, []
    for u, g in enumerate(lats):
        mine, seen = [], set()
        want = {}
        for p in sp[u]:
            q = tuple(x - offs[u] for x in p)
            want.setdefault(words_of(g, c['kind'], q), []).append(q)
        full = set(all_paths(g))
        for j in range(rs[u], rs[u + 1]):
            q = tuple(x - offs[u] for x in kept[j])
            check(q in full, 'not a path of the lattice', q, g, what)
            w = words_of(g, c['kind'], q)
            check(w not in seen, 'word sequence twice', w, what)
            seen.add(w)
            check(q in want.get(w, []), 'path', q, 'was not sampled', what)
            n, arcs = fs[j]
            k = len(q)
            check_eq([a[:2] for a in arcs], [(i, i + 1) for i in range(k)], 'not linear', what)
            check_eq([a[2] for a in arcs], [g['arcs'][i][2] for i in q], 'labels', what)
            check_all_close([a[3] for a in arcs], [F.f8(g['arcs'][i][3]) for i in q], 'scores', what)
            a = aux[o:o + k]
            if c['kind'] == 'ragged':
                check_eq(a, [g['aux'][i] + ([-1] if g['arcs'][i][2] == -1 else []) for i in q], 'aux_labels', what)
            else:
                check_eq(a, [-1 if g['arcs'][i][2] == -1 else (g['aux'][i] + [0])[0] for i in q], 'aux_labels', what)
            o += k
            mine.append(q)
        check_eq(seen, set(want), 'word sequences of the n-best list against those sampled', what)
        prob = {}
        for p, v in mass(g, scale).items():
            if v > 1.01 / c['num']:
                check(words_of(g, c['kind'], p) in seen, 'a path of probability', v, 'is missing', p, what)
        out.append(mine)
    return out


def run_nbest(c):
    r = random.Random(c['seed'])
    lats, offs = make(c, r)
    f = attach(lats, c['kind'])
    m = f.scores.numel()
    leaf = None
    if c['grad'] == 'leaf':
        f.requires_grad_(True)
        leaf = f.scores
    elif c['grad'] == 'inner':
        leaf = f.scores.clone().requires_grad_(True)
        f.scores = leaf * 1.0
    early = f.get_tot_scores(use_double_scores=c['dbl'], log_semiring=True) if c['early'] else None
    before = f.scores.tolist()
    nb = k2.Nbest.from_lattice(f, c['num'], use_double_scores=c['dbl'], nbest_scale=c['scale'])
    check_eq(f.scores.tolist(), before, 'scores of the lattice', c)
    paths = check_nbest(nb, f, lats, offs, c, c['scale'], c)
    flat = [tuple(i + offs[u] for i in p) for u, ps in enumerate(paths) for p in ps]
    ts = nb.total_scores()
    check_eq([len(x) for x in ts.tolist()], [len(p) for p in paths], 'shape of total_scores', c)
    for u, (got, ps) in enumerate(zip(ts.tolist(), paths)):
        check_all_close(got, [score(lats[u], p) for p in ps], 'total_scores', c)
    check(str(nb).startswith('Nbest(') and f'num_fsas:{len(flat)}' in str(nb), 'str', str(nb), c)
    # words of the graphs used for the edit distance
    if flat:
        lg = k2.nbest._get_texts(nb.fsa)
        check_eq([tuple(x) for x in lg], [words_of(lats[u], c['kind'], p) for u, ps in enumerate(paths) for p in ps], 'texts', c)
        check_eq(nb.build_levenshtein_graphs().shape[0], len(flat), 'graphs', c)
    if c['grad'] and flat:
        w = [r.randint(-4, 4) / 4 for p in flat for _ in p]
        (nb.fsa.scores * torch.tensor(w)).sum().backward(retain_graph=True)
        want, q = [0.0] * m, 0
        for p in flat:
            for i in p:
                want[i] += w[q]
                q += 1
        check_all_close(leaf.grad.tolist(), want, 'gradient', c)
        leaf.grad = None
    if early is not None and c['grad']:
        ok = [g for g in lats if all_paths(g)]
        if len(ok) == len(lats):
            early.sum().backward()
            want = [0.0] * m
            for g, o in zip(lats, offs):
                for p, v in mass(g, 1.0).items():
                    for i in p:
                        want[o + i] += v
            check_all_close(leaf.grad.tolist(), want, 'gradient of total scores taken before', c, rtol=1e-3, atol=1e-3)
    later = f.get_tot_scores(use_double_scores=True, log_semiring=False).tolist()
    check_all_close(later, [max((score(g, p) for p in all_paths(g)), default=NEG) for g in lats], 'total scores afterwards', c)
    return any(len(p) > 1 for p in paths), [c['kind'], f'grad:{c["grad"]}'] + (['no path'] if any(not p for p in paths) else [])


@st.composite
def topk_case(draw):
    counts = draw(st.lists(st.integers(1, 5), min_size=1, max_size=4))
    return dict(counts=counts, k=draw(st.integers(1, 7)), seed=draw(st.integers(0, 10**6)), ties=draw(st.integers(0, 3)) == 0, empty=draw(st.integers(0, 9)) == 0)


def run_topk(c):
    r = random.Random(c['seed'])
    counts = list(c['counts'])
    P = sum(counts)
    fs, seqs = [], []
    for _ in range(P):
        L = r.randint(0, 3)
        arcs = [[i, i + 1, r.randint(1, 5), r.randint(-20, 20) if not c['ties'] else 8 * r.randint(-1, 1)] for i in range(L)] + [[L, L + 1, -1, r.randint(-8, 8) * (not c['ties'])]]
        fs.append({'n': L + 2, 'arcs': arcs})
    f = F.mk_vec(fs)
    uid = torch.arange(f.scores.numel(), dtype=torch.int32)
    f.uid = uid
    rs = [0]
    for x in counts:
        rs.append(rs[-1] + x)
    shape = k2.ragged.create_ragged_shape2(row_splits=torch.tensor(rs, dtype=torch.int32), cached_tot_size=P)
    nb = k2.Nbest(f, shape)
    top = nb.top_k(c['k'])
    check_eq(top.shape.row_splits(1).tolist(), [c['k'] * i for i in range(len(counts) + 1)], 'shape', c)
    check_eq(top.fsa.shape[0], c['k'] * len(counts), 'paths', c)
    got = F.rd(top.fsa)
    tot = [sum(F.f8(a[3]) for a in g['arcs']) for g in fs]
    first = []
    o = 0
    for g in fs:
        first.append(o)
        o += len(g['arcs'])
    uids, o = top.fsa.uid.tolist(), 0
    for u in range(len(counts)):
        mine = list(range(rs[u], rs[u + 1]))
        order = sorted((tot[i] for i in mine), reverse=True)
        want = (order + [order[-1]] * c['k'])[:c['k']]
        used = []
        for j in range(c['k']):
            n, arcs = got[u * c['k'] + j]
            i = first.index(uids[o])
            check(i in mine, 'path', i, 'of another utterance', c)
            check_eq([tuple(a) for a in arcs], [(a[0], a[1], a[2], F.f8(a[3])) for a in fs[i]['arcs']], 'arcs of path', i, c)
            check_eq(uids[o:o + len(arcs)], list(range(first[i], first[i] + len(arcs))), 'attributes', c)
            check_close(tot[i], want[j], 'score of the path at', j, c)
            o += len(arcs)
            used.append(i)
        real = used[:len(mine)]
        check_eq(len(set(real)), len(real), 'a path is taken twice', used, c)
        check(all(x == used[len(mine) - 1] for x in used[len(mine):]), 'replicated path', used, c)
    return len(counts) > 1 and max(counts) > 1, [f'k{c["k"]}', 'above' if c['k'] > max(counts) else 'within']


@st.composite
def intersect_case(draw):
    c = {k: draw(v) for k, v in lat_args.items()}
    return dict(c, same=draw(st.booleans()), sort=draw(st.booleans()))


def best_match(g, labs, scores):
    """Best total of a linear FSA (with epsilon self-loops) with a lattice, None without a match."""
    n = g['n']
    if not n:
        return None
    cur = {(0, 0): 0.0}
    todo = sorted(range(len(g['arcs'])), key=lambda i: g['arcs'][i][0])
    best = [{} for _ in range(n)]
    best[0] = {0: 0.0}
    for i in todo:
        s, d, l, w = g['arcs'][i]
        for j, v in list(best[s].items()):
            if l == 0:
                opts = [(j, 0.0)] + ([(j + 1, scores[j])] if j < len(labs) and labs[j] == 0 else [])
            elif j < len(labs) and labs[j] == l:
                opts = [(j + 1, scores[j])]
            else:
                opts = []
            for q, x in opts:
                t = v + F.f8(w) + x
                if t > best[d].get(q, NEG):
                    best[d][q] = t
    return best[-1].get(len(labs))


def run_intersect(c):
    r = random.Random(c['seed'])
    lats, offs = make(c, r)
    src = lats if c['same'] else make(dict(c, eps=0), r)[0]
    nb = k2.Nbest.from_lattice(attach(src, 'plain'), min(c['num'], 20), nbest_scale=c['scale'])
    f = F.mk_vec(lats)
    uid = list(range(f.scores.numel()))
    f.uid = torch.tensor(uid, dtype=torch.int32)
    if nb.fsa.shape[0] == 0:
        return False, ['no paths']
    parts = F.rd(nb.fsa)
    before = parts, nb.shape.row_splits(1).tolist()
    ans = nb.intersect(f)
    check_eq((F.rd(nb.fsa), nb.shape.row_splits(1).tolist()), before, 'the n-best list changed', c)
    check_eq(ans.shape.row_splits(1).tolist(), before[1], 'shape', c)
    check_eq(ans.fsa.shape[0], len(parts), 'paths', c)
    owner = nb.shape.row_ids(1).tolist()
    tot = ans.fsa.get_tot_scores(use_double_scores=True, log_semiring=False).tolist()
    found = 0
    for i, (n, arcs) in enumerate(F.rd(ans.fsa)):
        p = parts[i][1]
        want = best_match(lats[owner[i]], [a[2] for a in p], [a[3] for a in p])
        if want is None:
            check(tot[i] == NEG, 'a path although nothing matches', p, lats[owner[i]], c)
            continue
        found += 1
        check_close(tot[i], want, 'score of path', p, 'in', lats[owner[i]], c, rtol=1e-3, atol=1e-3)
        check_eq([a[2] for a in arcs if a[2] > 0], [a[2] for a in p if a[2] > 0], 'labels', arcs, p, c)
        check(all(a[2] != 0 for a in arcs), 'epsilon left', arcs, c)
    return found > 1, ['same' if c['same'] else 'other', f'found{min(found, 3)}']


@st.composite
def rescore_case(draw):
    c = {k: draw(v) for k, v in lat_args.items()}
    return dict(c, n=min(c['n'], 5), gn=draw(st.integers(2, 4)), lm=draw(st.booleans()))


def run_rescore(c):
    r = random.Random(c['seed'])
    lats, offs = make(dict(c, dead=0 if c['dead'] < 0.2 else c['dead']), r)
    f = attach(lats, c['kind'])
    lm = [r.randint(-16, 16) / 8 for _ in range(f.scores.numel())]
    f.lm_scores = torch.tensor(lm, dtype=torch.float32)
    f.tid = torch.arange(len(lm), dtype=torch.int32)
    gn = c['gn']
    garcs = []
    for s in range(gn - 1):
        for w in range(1, c['words'] + 1):
            if r.random() < 0.9:
                for _ in range(r.choice([1, 1, 1, 2])):
                    garcs.append([s, r.randrange(gn - 1), w, r.randint(-16, 16)])
        if r.random() < 0.8 or s == gn - 2:
            garcs.append([s, gn - 1, -1, r.randint(-16, 16)])
    garcs.sort(key=lambda a: (a[0], a[2] & 0xffffffff))
    G = F.mk_vec([{'n': gn, 'arcs': garcs}])
    if c['lm']:
        G.lm_scores = G.scores.clone()
    G = k2.arc_sort(k2.add_epsilon_self_loops(G))
    out = k2.nbest.whole_lattice_rescoring(f, G)
    check_eq(out.shape[0], len(lats), 'lattices', c)
    aux = out.aux_labels.tolist()
    plain = isinstance(out.aux_labels, torch.Tensor)
    if c['lm']:
        l2 = out.lm_scores.tolist()
    o, nt = 0, 0
    for u, (g, (n, arcs)) in enumerate(zip(lats, F.rd(out))):
        # acoustic score + LM score of every pair of paths
        want = {}
        for p in all_paths(g):
            words = words_of(g, c['kind'], p)
            toks = tuple(g['arcs'][i][2] for i in p if g['arcs'][i][2] > 0)
            am = sum(F.f8(g['arcs'][i][3]) - lm[offs[u] + i] for i in p)
            cur = [(0, 0.0)]
            for w in words + (-1,):
                cur = [(d, v + F.f8(x)) for s, v in cur for a, d, l, x in garcs if a == s and l == w]
            for _, v in cur:
                want.setdefault((toks, words), []).append((round(am + v, 3), round(v, 3)))
        got = {}
        mine = {'n': n, 'arcs': [[a[0], a[1], a[2], 8 * a[3]] for a in arcs]}
        for p in all_paths(mine):
            ws = []
            for i in p:
                x = aux[o + i]
                ws += [x] if plain else x
            key = tuple(arcs[i][2] for i in p if arcs[i][2] > 0), tuple(v for v in ws if v > 0)
            got.setdefault(key, []).append((round(sum(arcs[i][3] for i in p), 3), round(sum(l2[o + i] for i in p), 3) if c['lm'] else None))
        o += len(arcs)
        what = 'lattice', g, 'G', garcs, c
        check_eq(set(got), set(want), 'token and word sequences', *what)
        for k, v in got.items():
            w = sorted(want[k])
            # several ways to interleave epsilons lead to the same pair of paths
            for s, l in v:
                check(any(abs(s - x) < 5e-3 and (l is None or abs(l - y) < 5e-3) for x, y in w), 'score', s, l, 'of', k, 'want one of', w, *what)
            for x, y in w:
                check(any(abs(s - x) < 5e-3 and (l is None or abs(l - y) < 5e-3) for s, l in v), 'no path of score', x, 'for', k, 'got', v, *what)
        nt = max(nt, len(want))
    check(not hasattr(f, 'lm_scores') or True, '')
    return nt > 1, [c['kind'], 'lm' if c['lm'] else 'plain G']


@st.composite
def list_case(draw):
    return {k: draw(v) for k, v in lat_args.items()}


def run_list(c):
    r = random.Random(c['seed'])
    lats, offs = make(c, r)
    f = F.mk_vec(lats)
    ph = [-1 if a[2] == -1 else (w + [0])[0] for g in lats for a, w in zip(g['arcs'], g['aux'])]
    f.phones = torch.tensor(ph, dtype=torch.int32)
    nb = k2.nbest.generate_nbest_list(f, c['num'])
    sp = k2.random_paths(F.mk_vec(lats), use_double_scores=True, num_paths=c['num']).tolist()
    rs = nb.shape.row_splits(1).tolist()
    check_eq(len(rs), len(lats) + 1, 'utterances', c)
    got = F.rd(nb.fsa)
    check_eq(len(got), rs[-1], 'paths', c)
    for u in range(len(lats)):
        want = {tuple(ph[i] for i in p if ph[i] > 0) for p in sp[u]}
        seqs = []
        for n, arcs in got[rs[u]:rs[u + 1]]:
            check(all(a[:2] == (i, i + 1) and a[3] == 0 for i, a in enumerate(arcs)), 'not linear', arcs, c)
            check_eq(arcs[-1][2], -1, 'last label', c)
            seqs.append(tuple(a[2] for a in arcs[:-1]))
        check_eq(len(set(seqs)), len(seqs), 'repeated', seqs, c)
        check_eq(set(seqs), want, 'token sequences', c)
    return rs[-1] > len(lats), []


@st.composite
def mwer_case(draw):
    c = {k: draw(v) for k, v in lat_args.items()}
    refs = [draw(st.lists(st.integers(1, c['words']), max_size=5)) for _ in range(c['N'])]
    return dict(c, dead=0, refs=refs, temp=draw(st.sampled_from([1.0, 1.0, 0.5, 3.0])), red=draw(st.sampled_from(['none', 'sum', 'mean'])), rag=draw(st.booleans()),
                cls=draw(st.booleans()), grad=draw(st.sampled_from([None, 'leaf', 'inner'])))


def run_mwer(c):
    r = random.Random(c['seed'])
    lats, offs = make(c, r)
    twin = attach(lats, c['kind'])
    nb = k2.Nbest.from_lattice(twin, c['num'], use_double_scores=c['dbl'], nbest_scale=c['scale'])
    paths = check_nbest(nb, twin, lats, offs, c, c['scale'], c)
    f = attach(lats, c['kind'])
    if c['grad'] == 'leaf':
        f.requires_grad_(True)
        leaf = f.scores
    elif c['grad']:
        leaf = f.scores.clone().requires_grad_(True)
        f.scores = leaf * 1.0
    refs = ragged(c['refs']) if c['rag'] or not any(c['refs']) else c['refs']
    if c['cls']:
        loss = k2.MWERLoss(c['temp'], c['dbl'], c['red'])(f, refs, c['scale'], c['num'])
    else:
        loss = k2.mwer_loss(f, refs, nbest_scale=c['scale'], num_paths=c['num'], temperature=c['temp'], use_double_scores=c['dbl'], reduction=c['red'])
    z = torch.tensor([F.f8(a[3]) for g in lats for a in g['arcs']], dtype=torch.float64, requires_grad=True)
    parts = []
    for u, (g, ps) in enumerate(zip(lats, paths)):
        lp = torch.stack([z[torch.tensor(p) + offs[u]].sum() for p in ps]) / c['temp']
        wer = torch.tensor([float(distance(c['refs'][u], words_of(g, c['kind'], p), 1, 1)) for p in ps], dtype=torch.float64)
        parts.append(lp.softmax(0) * wer)
    flat = torch.cat(parts)
    ref = {'none': flat, 'sum': flat.sum(), 'mean': flat.mean()}[c['red']]
    if c['red'] == 'none':
        check(isinstance(loss, k2.RaggedTensor), 'type', type(loss), c)
        check_eq(loss.shape.row_splits(1).tolist(), nb.shape.row_splits(1).tolist(), 'shape', c)
        check_all_close(loss.sum().tolist(), [float(p.detach().sum()) for p in parts], 'loss per utterance', c, rtol=1e-3, atol=1e-3)
        got = loss.values
    else:
        got = loss
    check_all_close(got.detach().reshape(-1).tolist(), ref.detach().reshape(-1).tolist(), 'loss', c, rtol=1e-3, atol=1e-3)
    if c['grad']:
        w = torch.tensor([r.randint(1, 8) / 4 for _ in range(got.numel())]).reshape(got.shape)
        (got * w).sum().backward()
        (ref * w).sum().backward()
        check_all_close(leaf.grad.tolist(), z.grad.tolist(), 'gradient', c, rtol=1e-3, atol=2e-3)
    return any(len(p) > 1 for p in paths), [c['kind'], c['red'], f'grad:{c["grad"]}']


SUBS = [Sub('nbest', nbest_case, run_nbest, 900), Sub('topk', topk_case, run_topk, 400), Sub('intersect', intersect_case, run_intersect, 500),
        Sub('rescore', rescore_case, run_rescore, 500), Sub('list', list_case, run_list, 300), Sub('mwer', mwer_case, run_mwer, 700)]
