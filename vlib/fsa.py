"""FSAs as plain data: {'n': num_states, 'arcs': [[src, dst, label, score8], ...]}.

Scores are integers counting eighths, so float32 sums and maxima are exact.
n == 0 is the empty FSA; otherwise n >= 2, state 0 is the start, state n-1 the
final state; label -1 exactly on arcs into the final state; arcs are listed by
source state.
"""
import math
from collections import defaultdict

import torch
import k2
import _k2

NEG = float('-inf')


def f8(w):
    """Score of a case: eighths, or None for -infinity."""
    return NEG if w is None else w / 8.0


# ---------------------------------------------------------------- build / read
def _shape2(splits):
    return k2.ragged.create_ragged_shape2(row_splits=torch.tensor(splits, dtype=torch.int32))


def _arc_tensor(arcs):
    m = len(arcs)
    if m == 0:
        return torch.zeros((0, 4), dtype=torch.int32)
    ints = torch.tensor([[a[0], a[1], a[2], 0] for a in arcs], dtype=torch.int32)
    sc = torch.tensor([f8(a[3]) for a in arcs], dtype=torch.float32)
    ints[:, 3] = sc.view(torch.int32)
    return ints


def _splits(f):
    cnt = [0] * f['n']
    for a in f['arcs']:
        cnt[a[0]] += 1
    s = [0]
    for c in cnt:
        s.append(s[-1] + c)
    return s


def mk_arcs(f):
    return _k2.RaggedArc(_shape2(_splits(f)), _arc_tensor(f['arcs']))


def mk(f):
    """A single FSA."""
    return k2.Fsa(mk_arcs(f))


def mk_vec_arcs(fs):
    s1, s2 = [0], [0]
    arcs = []
    for f in fs:
        s1.append(s1[-1] + f['n'])
        for x in _splits(f)[1:]:
            s2.append(len(arcs) + x)
        arcs += f['arcs']
    shape = _shape2(s1).compose(_shape2(s2))
    return _k2.RaggedArc(shape, _arc_tensor(arcs))


def mk_vec(fs):
    """An FsaVec."""
    return k2.Fsa(mk_vec_arcs(fs))


def rd_arcs(ra):
    """RaggedArc -> list of (n, [(src, dst, label, score)]) (one entry for a single FSA)."""
    v = ra.values()
    ints = v[:, :3].tolist()
    sc = _k2.as_float(v[:, 3]).tolist() if v.shape[0] else []
    rows = [(a, b, c, s) for (a, b, c), s in zip(ints, sc)]
    if ra.num_axes() == 2:
        rs1, rs2 = [0, ra.dim0()], ra.row_splits(1).tolist()
    else:
        rs1, rs2 = ra.row_splits(1).tolist(), ra.row_splits(2).tolist()
    out = []
    assert rs1[0] == 0 and rs2[0] == 0 and rs2[-1] == len(rows) and len(rs2) == rs1[-1] + 1, \
        (rs1, rs2, len(rows))
    for i in range(len(rs1) - 1):
        b, e = rs1[i], rs1[i + 1]
        assert e >= b
        arcs = rows[rs2[b]:rs2[e]]
        # the source states on the arcs agree with the shape
        for s in range(b, e):
            for j in range(rs2[s], rs2[s + 1]):
                assert rows[j][0] == s - b, ('src_state does not match the shape', s - b, rows[j])
        out.append((e - b, arcs))
    return out


def rd(fsa):
    return rd_arcs(fsa.arcs)


def as_f(f):
    """case FSA -> (n, arcs with float scores)"""
    return f['n'], [(a[0], a[1], a[2], f8(a[3])) for a in f['arcs']]


# ---------------------------------------------------------------- validity
def well_formed(nf):
    """None, or what is wrong."""
    n, arcs = nf
    if n == 1:
        return 'one state'
    last = 0
    for s, d, l, _ in arcs:
        if not (0 <= s < n - 1):
            return f'source state {s} of {n}'
        if not (0 <= d < n):
            return f'dest state {d} of {n}'
        if s < last:
            return 'source states decrease'
        last = s
        if l < -1:
            return f'label {l}'
        if (l == -1) != (d == n - 1):
            return f'label {l} to state {d} of {n}'
    return None


def reach(nf):
    n, arcs = nf
    fw, bw = defaultdict(list), defaultdict(list)
    for s, d, _, _ in arcs:
        fw[s].append(d)
        bw[d].append(s)

    def go(g, s):
        seen, st = {s}, [s]
        while st:
            for y in g[st.pop()]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    if n == 0:
        return set(), set()
    return go(fw, 0), go(bw, n - 1)


def is_acyclic(nf, ignore_self_loops=False):
    n, arcs = nf
    g = defaultdict(set)
    indeg = [0] * n
    for s, d, _, _ in arcs:
        if s == d:
            if ignore_self_loops:
                continue
            return False
        if d not in g[s]:
            g[s].add(d)
            indeg[d] += 1
    st = [i for i in range(n) if indeg[i] == 0]
    k = 0
    while st:
        x = st.pop()
        k += 1
        for y in g[x]:
            indeg[y] -= 1
            if indeg[y] == 0:
                st.append(y)
    return k == n


def logadd(a, b):
    if a == NEG:
        return b
    if b == NEG:
        return a
    if a < b:
        a, b = b, a
    return a + math.log1p(math.exp(b - a))


def logsum(xs):
    xs = [x for x in xs if x != NEG]
    if not xs:
        return NEG
    m = max(xs)
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


# ---------------------------------------------------------------- paths, languages
class TooBig(Exception):
    pass


def paths(nf, limit=4000):
    """All complete paths of an acyclic FSA as tuples of arc indexes."""
    n, arcs = nf
    if n == 0:
        return []
    out = defaultdict(list)
    for i, a in enumerate(arcs):
        out[a[0]].append(i)
    _, co = reach(nf)
    res = []

    def rec(s, p):
        if s == n - 1:
            res.append(tuple(p))
            if len(res) > limit:
                raise TooBig
            return
        for i in out[s]:
            if arcs[i][1] in co:
                p.append(i)
                rec(arcs[i][1], p)
                p.pop()
    if 0 in co:
        rec(0, [])
    return res


def count_paths(nf):
    """Number of complete paths of an acyclic FSA."""
    n, arcs = nf
    if n == 0:
        return 0
    order = topo_order(nf)
    c = [0] * n
    c[0] = 1
    by = defaultdict(list)
    for a in arcs:
        by[a[0]].append(a[1])
    for s in order:
        for d in by[s]:
            c[d] += c[s]
    return c[n - 1]


def topo_order(nf):
    n, arcs = nf
    indeg = [0] * n
    g = defaultdict(list)
    for s, d, _, _ in arcs:
        g[s].append(d)
        indeg[d] += 1
    st = [i for i in range(n) if indeg[i] == 0]
    o = []
    while st:
        x = st.pop()
        o.append(x)
        for y in g[x]:
            indeg[y] -= 1
            if indeg[y] == 0:
                st.append(y)
    assert len(o) == n, 'cyclic'
    return o


def string_of(labels, eps=True):
    """labels of a path -> the string (final -1 dropped; epsilons dropped if eps)."""
    return tuple(l for l in labels if l != -1 and not (eps and l == 0))


def language(nf, eps=True, log=False, limit=4000, labels=None):
    """string -> weight, for an acyclic FSA. `labels`: alternative label per arc (may be lists)."""
    n, arcs = nf
    d = {}
    for p in paths(nf, limit):
        if labels is None:
            s = string_of([arcs[i][2] for i in p], eps)
        else:
            seq = []
            for i in p:
                x = labels[i]
                seq += list(x) if isinstance(x, (list, tuple)) else [x]
            s = string_of(seq, eps)
        w = sum(arcs[i][3] for i in p)
        if s in d:
            d[s] = logadd(d[s], w) if log else max(d[s], w)
        else:
            d[s] = w
    return d


def relation(nf, out_labels, eps=True, log=False, limit=4000, in_labels=None):
    """(input string, output string) -> weight, for an acyclic FST."""
    n, arcs = nf
    d = {}

    def seq(lbls, p):
        r = []
        for i in p:
            x = lbls[i]
            r += list(x) if isinstance(x, (list, tuple)) else [x]
        return r
    il = in_labels if in_labels is not None else [a[2] for a in arcs]
    for p in paths(nf, limit):
        k = (string_of(seq(il, p), eps), string_of(seq(out_labels, p), eps))
        w = sum(arcs[i][3] for i in p)
        if k in d:
            d[k] = logadd(d[k], w) if log else max(d[k], w)
        else:
            d[k] = w
    return d


def bounded_language(nf, max_len, eps=True, limit=30000):
    """Tropical: string -> best weight for all strings of at most max_len symbols, cyclic
    machines included; epsilon (0) cycles must not have positive score. eps=False treats 0 as
    a symbol."""
    n, arcs = nf
    if n == 0:
        return {}
    _, co = reach(nf)
    ac, _ = reach(nf)
    use = [a for a in arcs if a[0] in co and a[1] in co and a[0] in ac]
    epsarcs = [a for a in use if eps and a[2] == 0]
    by = defaultdict(list)
    for a in use:
        if not (eps and a[2] == 0):
            by[a[0]].append(a)

    def close(v):
        # v: state -> weight; Bellman-Ford over epsilon arcs
        for _ in range(n + 1):
            ch = False
            for s, d, _, w in epsarcs:
                if s in v and v[s] + w > v.get(d, NEG):
                    v[d] = v[s] + w
                    ch = True
            if not ch:
                break
        return v
    res = {}
    if 0 not in co:
        return res
    front = {(): close({0: 0.0})}
    total = 0
    for k in range(max_len + 1):
        nxt = {}
        for s, v in front.items():
            for q, w in v.items():
                for a in by[q]:
                    if a[2] == -1:
                        x = w + a[3]
                        if x > res.get(s, NEG):
                            res[s] = x
                    elif k < max_len:
                        t = nxt.setdefault(s + (a[2],), {})
                        x = w + a[3]
                        if x > t.get(a[1], NEG):
                            t[a[1]] = x
            total += 1
        if total + len(nxt) > limit:
            raise TooBig
        front = {s: close(v) for s, v in nxt.items()}
    return res


def alphabet(nf):
    return sorted({a[2] for a in nf[1] if a[2] > 0})


# ---------------------------------------------------------------- score oracles (acyclic)
def forward(nf, log):
    n, arcs = nf
    f = [NEG] * n
    if n == 0:
        return f
    f[0] = 0.0
    inc = defaultdict(list)
    for a in arcs:
        inc[a[1]].append(a)
    for s in topo_order(nf):
        xs = [f[a[0]] + a[3] for a in inc[s]]
        if s == 0:
            xs.append(0.0)
        f[s] = (logsum(xs) if log else max(xs)) if xs else NEG
    return f


def backward(nf, log):
    n, arcs = nf
    b = [NEG] * n
    if n == 0:
        return b
    out = defaultdict(list)
    for a in arcs:
        out[a[0]].append(a)
    for s in reversed(topo_order(nf)):
        xs = [b[a[1]] + a[3] for a in out[s]]
        if s == n - 1:
            xs.append(0.0)
        b[s] = (logsum(xs) if log else max(xs)) if xs else NEG
    return b


# ---------------------------------------------------------------- machines too big to list their paths
class Sim:
    """The best weight of one string at a time (epsilon cycles must not have a positive weight)."""

    def __init__(self, nf, eps=True):
        self.n, self.arcs, self.eps = nf[0], nf[1], eps
        self.by = {}
        for a in nf[1]:
            if not (eps and a[2] == 0):
                self.by.setdefault((a[0], a[2]), []).append(a)
        self.e = {}
        if eps:
            for a in nf[1]:
                if a[2] == 0:
                    self.e.setdefault(a[0], []).append(a)

    def close(self, cur):
        todo = list(cur)
        while todo:
            nxt = set()
            for s in todo:
                w = cur[s]
                for a in self.e.get(s, []):
                    v = w + a[3]
                    if v > cur.get(a[1], NEG):
                        cur[a[1]] = v
                        nxt.add(a[1])
            todo = nxt
        return cur

    def weight(self, string):
        """None if not accepted; `string` without the final -1."""
        if self.n == 0:
            return None
        cur = self.close({0: 0.0})
        for l in list(string) + [-1]:
            new = {}
            for s, w in cur.items():
                for a in self.by.get((s, l), []):
                    v = w + a[3]
                    if v > new.get(a[1], NEG):
                        new[a[1]] = v
            cur = self.close(new) if l != -1 else new
            if not cur:
                return None
        return cur.get(self.n - 1)


def sample_strings(nf, r, k, eps=True, max_len=4000):
    """Strings of up to k random successful paths (r: random.Random), without the final -1."""
    ac, co = reach(nf)
    if nf[0] < 2 or 0 not in co:
        return []
    by = {}
    for a in nf[1]:
        if a[1] in co:
            by.setdefault(a[0], []).append(a)
    out = []
    for _ in range(k):
        s, t, steps = 0, [], 0
        while s != nf[0] - 1 and steps < max_len:
            a = r.choice(by[s])
            if steps > max_len // 2:      # on the way out: prefer arcs ahead
                a = max(r.choice(by[s]), a, key=lambda x: x[1])
            if a[2] != -1 and not (eps and a[2] == 0):
                t.append(a[2])
            s = a[1]
            steps += 1
        if s == nf[0] - 1:
            out.append(tuple(t))
    return out
