"""S02: gradients of path-score quantities are the true derivatives."""
import math
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import dense, fsa as F, gen
from vlib.core import Sub, check, check_close, check_eq, check_all_close, close

TECHNIQUE = 'k2 gradients against a differentiable Python dynamic program and explicit path enumeration'
NOTE = 'Random upstream gradients, both semirings and precisions; chains of FSA operations back to the original scores.'
RULE = ('Vectors of 1-3 top-sorted acyclic FSAs, a random upstream gradient per entry and one differentiable quantity, '
        'or a random chain of up to 4 FSA operations before the total score, or the total of a lattice of graphs and network output. huge: machines of up to 66000 states or arcs. Non-trivial: some member has two or more '
        'complete paths (with tied tropical candidates every state must pass its derivative to exactly one best candidate; '
        'the posteriors are compared without ties only).')
NEG = float('-inf')


def dp(nf, sc, log, reverse=False):
    """state -> scalar tensor or None (-inf); second value: a tie was met."""
    n, arcs = nf
    val = [None] * n
    tie = False
    if n == 0:
        return val, False
    order = F.topo_order(nf)
    if reverse:
        order = order[::-1]
    start = n - 1 if reverse else 0
    by = [[] for _ in range(n)]
    for i, a in enumerate(arcs):
        by[a[0] if reverse else a[1]].append(i)
    for s in order:
        xs = [torch.zeros((), dtype=torch.float64)] if s == start else []
        for i in by[s]:
            o = arcs[i][1] if reverse else arcs[i][0]
            if val[o] is not None and sc[i].item() != NEG:
                xs.append(val[o] + sc[i])
        if not xs:
            continue
        x = torch.stack(xs)
        if log:
            val[s] = torch.logsumexp(x, 0)
        else:
            m = x.max(0)
            val[s] = m.values
            tie |= sum(1 for y in xs if y.item() == m.values.item()) > 1
    return val, tie


def check_choice(nf, g, w, reverse):
    n, arcs = nf
    if n == 0:
        return
    with torch.no_grad():
        val, _ = dp(nf, torch.tensor([a[3] for a in arcs], dtype=torch.float64), False, reverse)
    fr, to = (1, 0) if reverse else (0, 1)
    order = F.topo_order(nf)
    for s in (order if reverse else order[::-1]):
        d = w[s] + sum(x for x, a in zip(g, arcs) if a[fr] == s)
        ent = [i for i, a in enumerate(arcs) if a[to] == s]
        best = [i for i in ent if val[s] is not None and val[arcs[i][fr]] is not None
                and val[arcs[i][fr]].item() + arcs[i][3] == val[s].item()]
        if s == (n - 1 if reverse else 0):
            best = []
        check(all(g[i] == 0 for i in ent if i not in best), 'gradient of an arc that is not best', g, s)
        nz = [i for i in best if g[i] != 0]
        check(len(nz) <= 1, 'gradient shared by tied arcs', g, s)
        if best:
            check_close(g[nz[0]] if nz else 0.0, d, 'derivative of state', s, rtol=1e-6, atol=1e-6)


@st.composite
def case(draw):
    log = draw(st.booleans())
    q = draw(st.sampled_from(['tot', 'tot', 'fw', 'bw', 'post']))
    sc = (-24, 24) if log else draw(st.sampled_from([(-6, 6), (-4000, 4000), (-4000, 4000)]))
    fs = draw(gen.fsa_vec(1, 3, max_states=6, max_arcs=9, scores=sc))
    if draw(st.integers(0, 5)) == 0:
        for f in fs:
            for a in f['arcs']:
                if draw(st.integers(0, 5)) == 0:
                    a[3] = None
    return {'fs': fs, 'log': log, 'q': q, 'dbl': draw(st.booleans()), 'seed': draw(st.integers(0, 10**6)),
            'stride': draw(st.integers(0, 2)), 'twice': draw(st.booleans())}


def upstream(n, r, stride, dtype):
    if stride == 1:
        v = r.randint(-8, 8) / 4
        return [v] * n, torch.tensor(v, dtype=dtype).expand(n)
    w = [r.randint(-8, 8) / 4 for _ in range(n)]
    if stride == 0 or n < 2:
        return w, torch.tensor(w, dtype=dtype)
    z = torch.zeros(n, 2, dtype=dtype)
    z[:, 1] = torch.tensor(w, dtype=dtype)
    return w, z[:, 1]


def run(c):
    fs, log, dbl, q = c['fs'], c['log'], c['dbl'], c['q']
    nfs = [F.as_f(f) for f in fs]
    r = random.Random(c['seed'])
    vec = F.mk_vec(fs)
    vec.requires_grad_(True)
    dt = torch.float64 if dbl else torch.float32
    sc = [torch.tensor([a[3] for a in nf[1]], dtype=torch.float64, requires_grad=True) for nf in nfs]
    loss = torch.zeros((), dtype=torch.float64)
    ties = False
    if c['twice']:     # fill the caches without gradient tracking first
        with torch.no_grad():
            vec.get_tot_scores(dbl, log), vec.get_forward_scores(dbl, log), vec.get_arc_post(dbl, log)
    if q == 'tot':
        out = vec.get_tot_scores(dbl, log)
        ref = []
        for nf, s in zip(nfs, sc):
            v, t = dp(nf, s, log)
            ties |= t
            ref.append(v[-1] if nf[0] else None)
    elif q in ('fw', 'bw'):
        out = (vec.get_forward_scores if q == 'fw' else vec.get_backward_scores)(dbl, log)
        ref = []
        for nf, s in zip(nfs, sc):
            v, t = dp(nf, s, log, q == 'bw')
            ties |= t
            ref += v
    else:
        out = vec.get_arc_post(dbl, log)
        ref = []
        for nf, s in zip(nfs, sc):
            f, t1 = dp(nf, s, log)
            b, t2 = dp(nf, s, log, True)
            ties |= t1 or t2
            for i, a in enumerate(nf[1]):
                x, y = f[a[0]], b[a[1]]
                dead = x is None or y is None or f[-1] is None or s[i].item() == NEG
                ref.append(None if dead else x + s[i] + y - f[-1])
    check_eq(out.dtype, dt, 'dtype')
    w, wt = upstream(len(ref), r, c['stride'], dt)
    if any(x is None for x in ref) and (q != 'tot' or any(a[3] == NEG for nf in nfs for a in nf[1])):
        # a quantity that is minus infinity has no derivative: exp() of it passes none on
        w = [0.0 if x is None else v for x, v in zip(ref, w)]
        wt = torch.tensor(w, dtype=dt)
    check_all_close(out.detach().tolist(), [NEG if x is None else x.item() for x in ref], q, rtol=1e-5,
                    atol=1e-3 if not dbl else 1e-5)
    nontriv = any(F.count_paths(nf) >= 2 for nf in nfs)
    for x, v in zip(ref, w):
        if x is not None:
            loss = loss + x * v
    check(out.requires_grad, 'output does not require grad')
    if not len(ref):
        return False, [q]
    out.backward(wt)
    check(vec.scores.grad is not None, 'no gradient')
    check_eq(vec.scores.grad.dtype, torch.float32, 'gradient dtype')
    got = vec.scores.grad.tolist()
    exp = []
    if loss.requires_grad:
        loss.backward()
    for s in sc:
        exp += (s.grad if s.grad is not None else torch.zeros_like(s)).tolist()
    if log or not ties:
        check_all_close(got, exp, 'gradient of', q, 'log' if log else 'tropical', rtol=1e-3, atol=2e-3 if not dbl else 1e-4)
    elif q != 'post':
        # ties: each state passes its derivative on to exactly one of its best candidates
        k = j = 0
        for nf in nfs:
            n, arcs = nf
            g = got[k:k + len(arcs)]
            k += len(arcs)
            if q == 'tot':
                wv = [0.0] * n
                if n:
                    wv[-1] = w[j] if ref[j] is not None else 0.0
                j += 1
            else:
                wv = w[j:j + n]
                j += n
            check_choice(nf, g, wv, q == 'bw')
    if q == 'tot' and not log:
        k = 0
        for nf, v, x in zip(nfs, w, ref):
            g = got[k:k + len(nf[1])]
            k += len(nf[1])
            if x is None or v == 0:
                check(all(y == 0 for y in g), 'gradient of a machine without path', g)
                continue
            path = [i for i, y in enumerate(g) if y != 0]
            check(all(g[i] == v for i in path), 'not an indicator', g, v)
            check(tuple(path) in {tuple(sorted(p)) for p in F.paths(nf)}, 'not a path', path)
            check(close(sum(nf[1][i][3] for i in path), x.item(), 1e-6, 1e-4), 'not a best path', path)
    return nontriv and (log or not ties or q != 'post'), [q, 'log' if log else 'tropical', 'ties' if ties else 'no ties']


# ------------------------------------------------------------------ chains
PRES = ['arc_sort', 'connect', 'top_sort', 'index', 'clone', 'selfloops', 'intersect', 'union', 'cat', 'device']
TROP = ['remove_epsilon', 'shortest', 'rmeps_only']      # determinize() refuses requires_grad


@st.composite
def chain(draw):
    log = draw(st.booleans())
    ops = draw(st.lists(st.sampled_from(PRES if log else PRES + TROP), min_size=1, max_size=4))
    sc = (-24, 24) if log else (-4000, 4000)
    fs = draw(gen.fsa_vec(1, 3, max_states=5, max_arcs=6, scores=sc, empty=False, max_label=2))
    b = draw(gen.fsa(max_states=4, max_arcs=5, scores=sc, empty=False, eps=False, max_label=2))
    return {'fs': fs, 'b': b, 'log': log, 'ops': ops, 'seed': draw(st.integers(0, 10**6)), 'dbl': draw(st.booleans())}


def run_chain(c):
    r = random.Random(c['seed'])
    log, dbl = c['log'], c['dbl']
    nfs = [F.as_f(f) for f in c['fs']]
    nb = F.as_f(c['b'])
    src = F.mk_vec(c['fs'])
    bf = k2.arc_sort(F.mk_vec([c['b']]))
    src.requires_grad_(True)
    bf.requires_grad_(True)
    bperm = k2.arc_sort(F.mk_vec([c['b']]), ret_arc_map=True)[1].tolist()
    # reference: per output FSA a list of (string with eps, [arc uses of src], [arc uses of b])
    base, off = [], 0
    for nf in nfs:
        base.append([(tuple(nf[1][i][2] for i in p), [off + i for i in p], []) for p in F.paths(nf, 300)])
        off += len(nf[1])
    bpaths = [(F.string_of([nb[1][i][2] for i in p]), list(p)) for p in F.paths(nb, 300)]
    x = src
    cur = base
    done = []
    eps_free = all(a[2] != 0 for f in c['fs'] for a in f['arcs'])
    cyc = False
    for op in c['ops']:
        if op in ('remove_epsilon', 'shortest', 'rmeps_only') and any(len(p) == 0 for p in cur):
            continue
        if op in ('intersect', 'union') and op in done:
            continue
        if op == 'arc_sort':
            x = k2.arc_sort(x)
        elif op == 'connect':
            x = k2.connect(x)
        elif op == 'top_sort':
            x = k2.top_sort(x)
        elif op == 'clone':
            x = x.clone()
        elif op == 'device':
            x = x.to('cpu')
        elif op == 'index':
            ix = [r.randrange(len(cur)) for _ in range(r.randint(1, 3))]
            x = k2.index_fsa(x, torch.tensor(ix, dtype=torch.int32))
            cur = [cur[i] for i in ix]
        elif op == 'selfloops':
            x = k2.remove_epsilon_self_loops(k2.add_epsilon_self_loops(x))
        elif op == 'cat':
            x = k2.ops.cat([x, x])
            cur = cur + cur
        elif op == 'union':
            if any(x[i].shape[0] == 0 for i in range(len(cur))):
                continue
            x = k2.create_fsa_vec([k2.union(x)])
            cur = [[((0,) + s, u, v) for p in cur for s, u, v in p]]
            eps_free = False
        elif op == 'intersect':
            x = k2.intersect_device(bf, k2.arc_sort(x), torch.zeros(len(cur), dtype=torch.int32),
                                    sorted_match_a=r.random() < .5) if eps_free else \
                k2.intersect(k2.arc_sort(x), bf[0], treat_epsilons_specially=True)
            x = k2.top_sort(k2.connect(x))
            new = []
            for p in cur:
                new.append([(s, u, v + bp) for s, u, v in p for bs, bp in bpaths if F.string_of(s) == bs])
            cur = new
            if any(len(p) > 1500 for p in cur):
                return False, ['too big']
        elif op in ('remove_epsilon', 'rmeps_only'):
            x = k2.top_sort(k2.connect(k2.remove_epsilon(x)))
            eps_free = True
        elif op == 'shortest':
            x = k2.shortest_path(k2.top_sort(x), use_double_scores=dbl)
            aw, bw = [a[3] for nf in nfs for a in nf[1]], [a[3] for a in nb[1]]
            new = []
            for p in cur:
                ws = [sum(aw[i] for i in u) + sum(bw[i] for i in v) for _, u, v in p]
                if ws.count(max(ws)) > 1:
                    return False, ['tied shortest']
                new.append([p[ws.index(max(ws))]])
            cur = new
        done.append(op)
    if not done:
        return False, ['nothing']
    x = k2.top_sort(x)
    w = [r.randint(-4, 4) or 1 for _ in cur]
    tot = x.get_tot_scores(use_double_scores=dbl, log_semiring=log)
    s = torch.tensor([a[3] for nf in nfs for a in nf[1]], dtype=torch.float64, requires_grad=True)
    sb = torch.tensor([a[3] for a in nb[1]], dtype=torch.float64, requires_grad=True)
    loss = torch.zeros((), dtype=torch.float64)
    kloss = torch.zeros((), dtype=tot.dtype)
    vals, ties = [], False
    for i, p in enumerate(cur):
        if not p:
            vals.append(NEG)
            continue
        pw = torch.stack([s[u].sum() + sb[v].sum() for _, u, v in p])
        t = torch.logsumexp(pw, 0) if log else pw.max(0).values
        if not log:
            ties |= int((pw == t).sum()) > 1
        vals.append(t.item())
        loss = loss + w[i] * t
        kloss = kloss + w[i] * tot[i]
    check_all_close(tot.detach().tolist(), vals, 'total after', done, rtol=1e-5, atol=1e-3)
    if all(not p for p in cur):
        return False, ['dead']
    loss.backward()
    kloss.backward()
    if not ties:
        g = src.scores.grad
        check(g is not None, 'no gradient after', done)
        check_all_close(g.tolist(), s.grad.tolist(), 'gradient after', done, rtol=1e-3, atol=2e-3)
        if 'intersect' in done:
            gb = [0.0] * len(bperm)
            for k, v in zip(bperm, (bf.grad if hasattr(bf, 'grad') and bf.grad is not None else bf.scores.grad).tolist()):
                gb[k] = v
            check_all_close(gb, sb.grad.tolist(), 'gradient of the second operand after', done, rtol=1e-3, atol=2e-3)
    return any(len(p) > 1 for p in cur) and not ties, sorted(set(done)) + ['log' if log else 'tropical']


# ------------------------------------------------------------------ lattices from network output
@st.composite
def lattice(draw):
    log = draw(st.booleans())
    T, C = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    lens = sorted(draw(st.lists(st.integers(1, T), min_size=1, max_size=3)), reverse=True)
    return dict(log=log, T=T, C=C, lens=lens, shared=draw(st.booleans()), pruned=draw(st.booleans()), dbl=draw(st.booleans()),
                pre=draw(st.lists(st.sampled_from(['connect', 'clone', 'device']), max_size=1)),
                post=draw(st.lists(st.sampled_from(['connect', 'top_sort', 'arc_sort', 'clone', 'index', 'device', 'selfloops', 'cat'] +
                                                   ([] if log else ['shortest'])), max_size=3)),
                seed=draw(st.integers(0, 10**6)), leaf=draw(st.sampled_from(['both', 'both', 'graph', 'net'])))


def run_lattice(c):
    r = random.Random(c['seed'])
    log, dbl, C, lens = c['log'], c['dbl'], c['C'], c['lens']
    N, T = len(lens), max(lens)
    wide = (-16, 16) if log else (-2000, 2000)
    mat = dense.matrix(r, N, T, C, 0, *wide)
    gs = [dense.graph(r, C, scores=wide) for _ in range(1 if c['shared'] else N)]
    lp = dense.tensor(mat)
    vec = F.mk_vec(gs)
    if c['leaf'] != 'graph':
        lp.requires_grad_(True)
    if c['leaf'] != 'net':
        vec.requires_grad_(True)
    d = k2.DenseFsaVec(lp, torch.tensor([[i, 0, n] for i, n in enumerate(lens)], dtype=torch.int32))
    x = vec
    for op in c['pre']:
        x = k2.arc_sort(k2.connect(x)) if op == 'connect' else x.clone() if op == 'clone' else x.to('cpu')
    if c['shared'] and r.random() < .5:
        x = k2.index_fsa(x, torch.zeros(N, dtype=torch.int32))
        shared = False
    else:
        shared = c['shared']
    if c['pruned']:
        x = k2.intersect_dense_pruned(x[0] if shared and r.random() < .5 else x, d, 1e5, 1e5, 0, 10000)
    else:
        x = k2.intersect_dense(k2.index_fsa(x, torch.zeros(N, dtype=torch.int32)) if shared else x, d, 1e5)
    cur = list(range(N))
    for op in c['post']:
        if op == 'index':
            ix = [r.randrange(len(cur)) for _ in range(r.randint(1, 3))]
            x = k2.index_fsa(x, torch.tensor(ix, dtype=torch.int32))
            cur = [cur[i] for i in ix]
        elif op == 'cat':
            x = k2.ops.cat([x, x])
            cur = cur + cur
        elif op == 'shortest':
            x = k2.shortest_path(x, use_double_scores=dbl)
        elif op == 'selfloops':
            x = k2.remove_epsilon_self_loops(k2.add_epsilon_self_loops(x))
        else:
            x = x.to('cpu') if op == 'device' else x.clone() if op == 'clone' else getattr(k2, op)(x)
    x = k2.top_sort(x)
    w = [r.randint(-4, 4) or 1 for _ in cur]
    tot = x.get_tot_scores(use_double_scores=dbl, log_semiring=log)
    sc = [torch.tensor([a[3] / 8 for a in g['arcs']], dtype=torch.float64, requires_grad=True) for g in gs]
    ref_lp = dense.tensor(mat).double().requires_grad_(True)
    loss, kloss, vals, ties, many = torch.zeros((), dtype=torch.float64), torch.zeros((), dtype=tot.dtype), [], False, False
    for j, i in enumerate(cur):
        g, s = gs[0 if c['shared'] else i], sc[0 if c['shared'] else i]
        val, num = {0: torch.zeros((), dtype=torch.float64)}, {0: 1}
        for t in range(lens[i] + 1):
            cand, cnt = {}, {}
            for k, a in enumerate(g['arcs']):
                if a[0] in val and (a[2] == -1) == (t == lens[i]):
                    cand.setdefault(a[1], []).append(val[a[0]] + s[k] + (ref_lp[i, t, a[2]] if a[2] >= 0 else 0))
                    cnt[a[1]] = cnt.get(a[1], 0) + num[a[0]]
            val, num = {}, cnt
            for q, xs in cand.items():
                xs = torch.stack(xs)
                val[q] = torch.logsumexp(xs, 0) if log else xs.max()
                ties |= not log and int((xs == xs.max()).sum()) > 1
        v = val.get(g['n'] - 1)
        many |= num.get(g['n'] - 1, 0) > 1
        vals.append(NEG if v is None else v.item())
        if v is not None:
            loss, kloss = loss + w[j] * v, kloss + w[j] * tot[j]
    check_all_close(tot.detach().tolist(), vals, 'total of the lattice', c, rtol=1e-5, atol=1e-3)
    if not loss.requires_grad:
        return False, ['dead']
    loss.backward()
    kloss.backward()
    if not ties:
        kw = dict(rtol=1e-3, atol=2e-3)
        if c['leaf'] != 'net':
            check(vec.scores.grad is not None, 'no gradient of the graph', c)
            check_all_close(vec.scores.grad.tolist(), sum([(s.grad if s.grad is not None else torch.zeros_like(s)).tolist() for s in sc], []),
                            'gradient of the graph scores', c, **kw)
        if c['leaf'] != 'graph':
            check(lp.grad is not None, 'no gradient of the network output', c)
            check_all_close(lp.grad.flatten().tolist(), ref_lp.grad.flatten().tolist(), 'gradient of the network output', c, **kw)
    return many and not ties, ['pruned' if c['pruned'] else 'exact', 'log' if log else 'tropical', 'shared' if c['shared'] else 'own'] + sorted(set(c['post']))


# ------------------------------------------------------------------ machines with thousands of states or arcs
@st.composite
def huge(draw):
    return {'h': draw(gen.huge((300, 1100, 5000, 20000, 66000))), 'rest': draw(gen.fsa_vec(0, 2, max_states=4, max_arcs=4)),
            'pos': draw(st.integers(0, 2)), 'log': draw(st.booleans()), 'q': draw(st.sampled_from(['tot', 'tot', 'fw', 'bw', 'post'])),
            'pick': draw(st.integers(0, 10**6)), 'stride': draw(st.integers(0, 2))}


def run_huge(c):
    r = random.Random(c['pick'])
    log, q = c['log'], c['q']
    fs = list(c['rest'])
    pos = min(c['pos'], len(fs))
    fs.insert(pos, gen.build_huge(c['h']))
    if log and q == 'post':
        for a in fs[pos]['arcs']:
            a[3] = a[3] % 4
    nfs = [F.as_f(f) for f in fs]
    vec = F.mk_vec(fs)
    vec.requires_grad_(True)
    fws, bws = [F.forward(nf, log) for nf in nfs], [F.backward(nf, log) for nf in nfs]
    out = {'tot': vec.get_tot_scores, 'fw': vec.get_forward_scores, 'bw': vec.get_backward_scores,
           'post': vec.get_arc_post}[q](True, log)
    n = out.numel()
    if q == 'tot':
        w, wt = upstream(n, r, c['stride'], torch.float64)
    else:                       # the derivative of a few entries only
        w = [0.0] * n
        k = 0
        for nf in nfs:
            m = nf[0] if q != 'post' else len(nf[1])
            for _ in range(3 if m else 0):
                w[k + r.randrange(m)] = r.randint(1, 8) / 4 * r.choice([1, -1])
            k += m
        ref = []
        for nf, fw, bw in zip(nfs, fws, bws):
            ref += fw if q == 'fw' else bw if q == 'bw' else \
                [fw[a[0]] + a[3] + bw[a[1]] - fw[-1] if fw[-1] != NEG else NEG for a in nf[1]]
        w = [0.0 if x == NEG else v for x, v in zip(ref, w)]
        wt = torch.tensor(w, dtype=torch.float64)
    out.backward(wt)
    got = vec.scores.grad.tolist()
    k = j = 0
    for nf, fw, bw in zip(nfs, fws, bws):
        ns, arcs = nf
        g = got[k:k + len(arcs)]
        k += len(arcs)
        if ns == 0:
            j += q == 'tot'
            continue
        if q == 'tot':
            wv = [0.0] * ns
            wv[-1] = w[j] if fw[-1] != NEG else 0.0
            j += 1
        elif q != 'post':
            wv = w[j:j + ns]
            j += ns
        else:
            wv = None
            wa = w[j:j + len(arcs)]
            j += len(arcs)
        if not log and q == 'post':
            continue                            # needs a machine without ties: left to the small machines
        if not log:
            check_choice_sum(nf, g, wv, q == 'bw', fw if q != 'bw' else bw)
            continue
        # d(value of state s)/d(arc into it) = exp(from + score - value), passed on backwards
        exp = [0.0] * len(arcs)
        if q in ('tot', 'fw', 'post'):
            ws = list(wv) if wv is not None else [0.0] * ns
            if wv is None:
                for v, a in zip(wa, arcs):
                    ws[a[0]] += v
                ws[-1] -= sum(wa)
            pas(nf, fw, ws, exp, 1, 0)
        if q in ('bw', 'post'):
            ws = list(wv) if wv is not None else [0.0] * ns
            if wv is None:
                for v, a in zip(wa, arcs):
                    ws[a[1]] += v
            pas(nf, bw, ws, exp, 0, 1)
        if q == 'post':
            exp = [x + v for x, v in zip(exp, wa)]
        check_all_close(g, exp, 'gradient of', q, 'log', rtol=1e-3, atol=1e-4)
    return True, [c['h']['kind'], q, 'log' if log else 'tropical']


def pas(nf, val, ws, exp, to, fr):
    n, arcs = nf
    by = {}
    for i, a in enumerate(arcs):
        by.setdefault(a[to], []).append(i)
    for s in (range(n - 1, -1, -1) if to == 1 else range(n)):      # top-sorted
        if ws[s] == 0 or val[s] == NEG:
            continue
        for i in by.get(s, ()):
            a = arcs[i]
            if val[a[fr]] != NEG:
                p = ws[s] * math.exp(val[a[fr]] + a[3] - val[s])
                exp[i] += p
                ws[a[fr]] += p


def check_choice_sum(nf, g, w, reverse, val):
    """Each state passes its derivative to exactly one of its best candidates."""
    n, arcs = nf
    fr, to = (1, 0) if reverse else (0, 1)
    by, outg = {}, [0.0] * n
    for i, a in enumerate(arcs):
        by.setdefault(a[to], []).append(i)
        outg[a[fr]] += g[i]
    for s in range(n):
        nz = [i for i in by.get(s, ()) if g[i] != 0]
        check(len(nz) <= 1, 'gradient shared by tied arcs', s)
        if s == (n - 1 if reverse else 0):
            check(not nz, 'gradient of an arc into the start')
            continue
        if val[s] == NEG or not by.get(s):
            check(not nz, 'gradient at a state out of reach', s)
            continue
        check_close(g[nz[0]] if nz else 0.0, w[s] + outg[s], 'derivative of state', s, rtol=1e-6, atol=1e-6)
        for i in nz:
            check(val[arcs[i][fr]] + arcs[i][3] == val[s], 'gradient of an arc that is not best', i)


SUBS = [Sub('huge', huge, run_huge, 60), Sub('quantities', case, run, 9000), Sub('chain', chain, run_chain, 3000), Sub('lattice', lattice, run_lattice, 2500)]
