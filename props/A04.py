"""A04: union, closure, reversal and replacement denote the regular-language operation."""
import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, check_close

TECHNIQUE = 'union, closure, reverse and replace_fsa against set-of-weighted-strings definitions by bounded enumeration'
NOTE = 'Transducer relations are compared by pairing input and output labels; arc maps and attributes are traced arc by arc.'
RULE = ('Machines (acyclic or cyclic with non-positive epsilon scores, self-loops, dead states, arcs into the start state, no '
        'arcs), vectors of 1-5, attributes. A share of the machines has labels near the limits of 8, 16 and 31 bits, and some have up to 70000 isolated states. big: up to 1000 members, thousands of states, sampled strings. Non-trivial: the result has a successful path that uses input arcs.')


def fix_eps(fs):
    for f in fs:
        for a in f['arcs']:
            if a[2] == 0:
                a[3] = -abs(a[3])


@st.composite
def vec_case(draw, lo=1, hi=4, empty=False):
    mode = draw(st.sampled_from(['top', 'acyclic', 'cyclic']))
    if draw(st.integers(0, 4)) == 0:
        fs = draw(gen.big_vec(hi, 10, 14, max_label=3, acyclic=mode != 'cyclic'))
    else:
        fs = draw(gen.fsa_vec(lo, hi, max_states=5, max_arcs=7, acyclic=mode != 'cyclic', top_sorted=mode == 'top',
                              empty=empty, max_label=3))
    if mode == 'cyclic':
        fix_eps(fs)
    return fs


def aux_of(fsa):
    return fsa.aux_labels.tolist() if hasattr(fsa, 'aux_labels') else None


def enc(nf, aux):
    """Pairs (label, aux) as one label; 0 if both are empty."""
    n, arcs = nf
    if aux is None:
        return nf
    out = []
    for (s, d, l, w), o in zip(arcs, aux):
        o = 0 if o == -1 else o
        out.append((s, d, -1 if l == -1 else l * 100 + o, w))
    return n, out


def split(nfs, vals):
    r, k = [], 0
    for n, arcs in nfs:
        r.append(None if vals is None else vals[k:k + len(arcs)])
        k += len(arcs)
    return r


def pairs(nf, aux, L, limit=3000):
    return F.bounded_language(enc(nf, aux), L, limit=limit)


def check_lang(got, want, what):
    check_eq(sorted(got), sorted(want), what, 'strings')
    for s in want:
        check_close(got[s], want[s], what, 'weight of', s, rtol=1e-6, atol=1e-3)


# ------------------------------------------------------------------ union
@st.composite
def union_case(draw):
    return {'fs': draw(vec_case()), 'at': draw(attrs.spec(['f', 'd', 'i', 'l', 'aux', 'rag', 'two', 'obj']))}


def run_union(c):
    src = F.mk_vec(c['fs'])
    vals = attrs.attach(src, c['at'])
    nfs = F.rd(src)
    out = k2.union(src)
    check_eq(len(out.shape), 2, 'axes')
    (o,) = F.rd(out)
    bad = F.well_formed(o)
    check(bad is None, 'malformed output', bad)
    uid = out.uid.tolist()
    arcs = [a for nf in nfs for a in nf[1]]
    check_eq(sorted(x for x in uid if x >= 0), list(range(len(arcs))), 'arcs of the inputs')
    for a, x in zip(o[1], uid):
        if x >= 0:
            check_eq((a[2], a[3]), arcs[x][2:4], 'label and score')
        else:
            check_eq((a[2], a[3]), (0, 0.0), 'new arc')
    attrs.check_unary(out, vals, c['at'], uid)
    attrs.check_unchanged(src, vals)
    aux = aux_of(src)
    nontriv = False
    try:
        want = {}
        for nf, ax in zip(nfs, split(nfs, aux)):
            for s, w in pairs(nf, ax, 4).items():
                want[s] = max(want.get(s, F.NEG), w)
        oa = aux_of(out)
        if oa is not None:
            for a, x in zip(o[1], oa):
                check(a[2] != -1 or x == -1, 'aux label of a final arc', x)
        check_lang(pairs(o, oa, 4), want, 'union')
        nontriv = bool(want) and len(nfs) > 1
    except F.TooBig:
        pass
    if all(F.is_acyclic(nf) for nf in nfs):
        try:
            want = {}
            for nf in nfs:
                for s, w in F.language(nf, log=True, limit=600).items():
                    want[s] = F.logadd(want.get(s, F.NEG), w)
            got = F.language(o, log=True, limit=3000)
            check_lang(got, want, 'log-semiring union')
        except F.TooBig:
            pass
    return nontriv, ['members %d' % len(nfs), 'aux' if aux else 'acceptor']


# ------------------------------------------------------------------ closure
@st.composite
def closure_case(draw):
    return {'fs': draw(vec_case(1, 1, True))[:1], 'at': draw(attrs.spec(['f', 'd', 'i', 'l', 'aux', 'obj'])),
            'exact': False}


def run_closure(c):
    src = F.mk(c['fs'][0])
    vals = attrs.attach(src, c['at'], uid=False)
    (nf,) = F.rd(src)
    src.uid = torch.arange(1, len(nf[1]) + 1, dtype=torch.int32)
    out = k2.closure(src)
    check_eq(len(out.shape), 2, 'axes')
    (o,) = F.rd(out)
    bad = F.well_formed(o)
    check(bad is None, 'malformed output', bad)
    uid = [x - 1 for x in out.uid.tolist()]
    check_eq(sorted(x for x in uid if x >= 0), list(range(len(nf[1]))), 'arcs of the input')
    if nf[0] == 0:
        check_eq(o, (0, []), 'closure of the empty FSA')
        return False, ['empty']
    for a, x in zip(o[1], uid):
        if x >= 0:
            b = nf[1][x]
            check_eq((a[2], a[3]), (0 if b[2] == -1 else b[2], b[3]), 'label and score')
        else:
            check_eq((a[2], a[3]), (-1, 0.0), 'new arc')
    for name, (kind, v, fill) in vals.items():
        want = [v[i] if i >= 0 else 0 for i in uid]
        if name == 'aux_labels':
            want = [-1 if a[2] == -1 else 0 if v[i] == -1 else v[i] for a, i in zip(o[1], uid)]
        check_eq(attrs.read(out, name), want, 'attribute', name)
    if 'obj' in c['at']['kinds']:
        check_eq(out.meta, src.meta, 'non-tensor attribute')
    attrs.check_unchanged(src, vals)
    aux = aux_of(src)
    L = 4
    entered = any(a[1] == 0 for a in nf[1])
    try:
        one = pairs(nf, aux, L)
        if one.get((), 0) > 0:
            return False, ['unbounded']
        want = {(): 0.0}
        front = dict(want)
        for _ in range(L):
            nxt = {}
            for s, w in front.items():
                for t, v in one.items():
                    if t and len(s) + len(t) <= L:
                        u = s + t
                        if w + v > want.get(u, F.NEG):
                            want[u] = nxt[u] = w + v
            front = nxt
        got = pairs(o, aux_of(out), L, 20000)
        if entered and not c['exact']:
            # known finding: prefixes ending back in the start state are accepted too
            for s, w in want.items():
                check(s in got and got[s] >= w - 1e-3, 'closure misses', s)
        else:
            check_lang(got, want, 'closure')
    except F.TooBig:
        return False, ['big']
    return bool(set(one) - {()}), ['start entered' if entered else 'start not entered', 'aux' if aux else 'acceptor']


# ------------------------------------------------------------------ reverse
@st.composite
def reverse_case(draw):
    return {'fs': draw(vec_case(0, 5, True)), 'single': draw(st.integers(0, 3)) == 0,
            'at': draw(attrs.spec(['f', 'd', 'i', 'l', 'aux', 'rag', 'two', 'obj']))}


def run_reverse(c):
    fs = c['fs']
    if c['single']:
        if not fs:
            return False, ['nothing']
        fs = fs[:1]
        src = F.mk(fs[0])
    else:
        src = F.mk_vec(fs)
    vals = attrs.attach(src, c['at'])
    nfs = F.rd(src)
    out = k2.reverse(src)
    check_eq(len(out.shape), len(src.shape), 'axes')
    outs = F.rd(out)
    check_eq(len(outs), len(nfs), 'number of FSAs')
    uid = out.uid.tolist()
    arcs = [a for nf in nfs for a in nf[1]]
    own = [i for i, nf in enumerate(nfs) for _ in nf[1]]
    check_eq(sorted(x for x in uid if x >= 0), list(range(len(arcs))), 'arcs of the inputs')
    attrs.check_unary(out, vals, c['at'], uid)
    attrs.check_unchanged(src, vals)
    k = 0
    nontriv = False
    ins, outa = split(nfs, aux_of(src)), split(outs, aux_of(out))
    for i, (nf, o) in enumerate(zip(nfs, outs)):
        bad = F.well_formed(o)
        check(bad is None, 'malformed output', bad)
        check_eq(o[0] == 0, nf[0] == 0, 'emptiness')
        for a, x in zip(o[1], uid[k:]):
            if x >= 0:
                check_eq(own[x], i, 'arc of another machine')
                check_eq((a[2], a[3]), (max(0, arcs[x][2]), arcs[x][3]), 'label and score')
            else:
                check_eq((a[2], a[3]), (-1, 0.0), 'new arc')
        k += len(o[1])
        try:
            want = {s[::-1]: w for s, w in pairs(nf, ins[i], 4).items()}
            check_lang(pairs(o, outa[i], 4), want, 'reverse')
            nontriv |= any(len(s) > 1 for s in want)
            if F.is_acyclic(nf):
                want = {s[::-1]: w for s, w in F.language(nf, log=True, limit=800).items()}
                check_lang(F.language(o, log=True, limit=800), want, 'log-semiring reverse')
        except F.TooBig:
            pass
    return nontriv, ['single' if c['single'] else 'vec', 'aux' if 'aux' in c['at']['kinds'] else 'acceptor']


# ------------------------------------------------------------------ replace
@st.composite
def replace_case(draw):
    src = draw(vec_case(1, 3, True))
    mode = draw(st.sampled_from(['top', 'acyclic', 'cyclic']))
    index = draw(gen.fsa_vec(1, 3, max_states=4, max_arcs=5, acyclic=mode != 'cyclic', top_sorted=mode == 'top', max_label=4))
    if mode == 'cyclic':
        fix_eps(index)
    sa = draw(attrs.spec(['f', 'd', 'i', 'rag', 'obj']))
    ia = draw(attrs.spec(['f', 'd', 'two', 'aux']))
    return {'src': src, 'index': index, 'single': draw(st.booleans()), 'begin': draw(st.integers(1, 3)),
            'sa': sa, 'ia': ia, 'maps': draw(st.booleans())}


def run_replace(c):
    src = F.mk_vec(c['src'])
    single = c['single']
    index = F.mk(c['index'][0]) if single else F.mk_vec(c['index'])
    sv = attrs.attach(src, c['sa'], uid=False)
    iv = attrs.attach(index, c['ia'], uid=False)
    both = set(sv) & set(iv)
    if any(sv[n][0] != 'num' or n == 'da' for n in both):
        # both carry a non-float32 attribute
        for n in both:
            if n != 'fa':
                delattr(index, n)
                del iv[n]
    snf, xnf = F.rd(src), F.rd(index)
    begin = c['begin']
    if c['maps']:
        out, mi, ms = k2.replace_fsa(src, index, begin, ret_arc_map=True)
    else:
        out = k2.replace_fsa(src, index, begin)
        import _k2
        _, ms, mi = _k2.replace_fsa(src.arcs, index.arcs, begin)
    mi, ms = mi.tolist(), ms.tolist()
    outs = F.rd(out)
    check_eq(len(outs), len(xnf), 'number of FSAs')
    check_eq(len(out.shape), len(index.shape), 'axes')
    sarcs = [a for nf in snf for a in nf[1]]
    xarcs = [a for nf in xnf for a in nf[1]]
    xown = [i for i, nf in enumerate(xnf) for _ in nf[1]]
    check_eq(sorted(x for x in mi if x >= 0), list(range(len(xarcs))), 'arcs of the index')

    def repl(l):
        return 0 <= l - begin < len(snf)
    want_s = []
    for a in xarcs:
        if repl(a[2]):
            j = a[2] - begin
            base = sum(len(nf[1]) for nf in snf[:j])
            want_s += list(range(base, base + len(snf[j][1])))
    check_eq(sorted(x for x in ms if x >= 0), sorted(want_s), 'arcs of the members')
    k = 0
    nontriv = False
    for i, (nf, o) in enumerate(zip(xnf, outs)):
        bad = F.well_formed(o)
        check(bad is None, 'malformed output', bad)
        for a in o[1]:
            x, s = mi[k], ms[k]
            k += 1
            check((x >= 0) != (s >= 0), 'an arc from both or none', x, s)
            if x >= 0:
                check_eq(xown[x], i, 'arc of another machine')
                b = xarcs[x]
                check_eq((a[2], a[3]), (0 if repl(b[2]) else b[2], b[3]), 'index arc')
            else:
                b = sarcs[s]
                check_eq((a[2], a[3]), (max(0, b[2]), b[3]), 'member arc')
        # the language
        if not F.is_acyclic(nf):
            continue
        try:
            L = 3
            mem = []
            for m in snf:
                # an empty member stands for epsilon
                mem.append({(): 0.0} if m[0] == 0 else F.bounded_language(m, L, limit=2000))
            want = {}
            for p in F.paths(nf, 60):
                cur = {(): sum(nf[1][q][3] for q in p)}
                for q in p:
                    l = nf[1][q][2]
                    sub = mem[l - begin] if repl(l) else {(() if l in (0, -1) else (l,)): 0.0}
                    nx = {}
                    for u, w in cur.items():
                        for v, z in sub.items():
                            if len(u) + len(v) <= L:
                                t = u + v
                                nx[t] = max(nx.get(t, F.NEG), w + z)
                    cur = nx
                    if len(cur) > 3000:
                        raise F.TooBig
                for u, w in cur.items():
                    want[u] = max(want.get(u, F.NEG), w)
            check_lang(F.bounded_language(o, L, limit=8000), want, 'replaced')
            nontriv |= any(repl(nf[1][q][2]) for p in F.paths(nf, 60) for q in p) and bool(want)
        except F.TooBig:
            pass
    # attributes
    for name, (kind, v, fill) in list(sv.items()) + list(iv.items()):
        got = attrs.read(out, name)
        want = []
        for x, s in zip(mi, ms):
            if name in sv and name in iv:
                want.append((sv[name][1][s] if s >= 0 else 0) + (iv[name][1][x] if x >= 0 else 0))
            else:
                j = s if name in sv else x
                want.append(v[j] if j >= 0 else fill)
        check_eq(got, want, 'attribute', name)
    attrs.check_unchanged(src, sv)
    attrs.check_unchanged(index, iv)
    return nontriv, ['single' if single else 'vec', 'begin %d' % begin]


# ------------------------------------------------------------------ too big to list the strings
@st.composite
def big_case(draw):
    return {'op': draw(st.sampled_from(['union', 'union', 'reverse', 'closure'])), 'k': draw(st.sampled_from([1, 2, 3, 10, 260, 1000])),
            'n': draw(st.sampled_from([3, 6, 30, 300, 1500])), 'd': draw(st.sampled_from([1, 2, 3])), 'cyclic': draw(st.booleans()),
            'labels': draw(st.sampled_from([1, 2, 4, 40])), 'h': draw(gen.huge(sizes=(60, 300, 1100, 3000))),
            'huge': draw(st.integers(0, 3)) == 0, 'seed': draw(st.integers(0, 10**6))}


def run_big(c):
    import random
    r = random.Random(c['seed'])
    op = c['op']
    k = 1 if op == 'closure' else c['k']
    if c['huge']:
        k = min(k, 3)
        fs = [gen.build_huge(dict(c['h'], seed=c['h']['seed'] + i), max_label=c['labels']) for i in range(k)]
    else:
        top = max(3, min(c['n'], 6000 // k))
        fs = [gen.rand_fsa(r, n, n * c['d'], max_label=c['labels'], acyclic=op == 'closure' or not c['cyclic'])
              for n in (r.randint(2, top) for _ in range(k))]
    for f in fs:
        for a in f['arcs']:
            if a[2] == 0:
                a[3] = -abs(a[3])
    src = F.mk(fs[0]) if op == 'closure' else F.mk_vec(fs)
    nfs = F.rd(src)
    m = src.num_arcs
    src.uid, src.uid_filler = torch.arange(m, dtype=torch.int32), -1
    src.f = torch.arange(1, m + 1, dtype=torch.float32)
    out = {'union': k2.union, 'closure': k2.closure, 'reverse': k2.reverse}[op](src)
    outs = F.rd(out)
    arcs = [a for nf in nfs for a in nf[1]]
    own = [i for i, nf in enumerate(nfs) for _ in nf[1]]
    fv = out.f.tolist()
    if op == 'closure':     # (no filler of its own: 0 for the new arcs)
        uid = [int(x) - 1 for x in fv]
    else:
        uid = out.uid.tolist()
        check_eq([int(x) - 1 for x in fv], uid, 'attributes')
    check_eq(sorted(x for x in uid if x >= 0), list(range(m)), 'arcs of the inputs')
    j = 0
    for i, o in enumerate(outs):
        bad = F.well_formed(o)
        check(bad is None, 'malformed output', bad)
        for a in o[1]:
            x = uid[j]
            j += 1
            if op == 'reverse' and x >= 0:
                b = arcs[x]
                check_eq(own[x], i, 'arc from another machine')
                check_eq((a[2], a[3]), (max(0, b[2]), b[3]), 'label and score')
            elif x >= 0:
                b = arcs[x]
                check_eq((a[2], a[3]), (0 if op == 'closure' and b[2] == -1 else b[2], b[3]), 'label and score')
            else:
                check_eq(a[3], 0.0, 'score of a new arc')
    some = 0
    sims = {}

    def sim(i):
        if i not in sims:
            sims[i] = F.Sim(nfs[i])
        return sims[i]
    if op == 'reverse':
        check_eq(len(outs), len(nfs), 'number of FSAs')
        for i in r.sample(range(len(nfs)), min(len(nfs), 12)):
            two = F.Sim(outs[i])
            ss = F.sample_strings(nfs[i], r, 4) + [s[::-1] for s in F.sample_strings(outs[i], r, 4)]
            for s in ss + [s[1:] for s in ss[:2]]:
                if len(s) * len(nfs[i][1]) > (10**6 if c['labels'] < 4 else 10**7):
                    continue
                check_eq(two.weight(s[::-1]), sim(i).weight(s), 'weight of the reverse of', s[:20], len(s))
                some += 1
    elif op == 'union':
        check_eq(len(outs), 1, 'number of FSAs')
        two = F.Sim(outs[0])
        pool, L = range(len(nfs)), max(40, 4000 // len(nfs))
        ss = F.sample_strings(outs[0], r, 8, max_len=L)
        for i in r.sample(pool, min(len(nfs), 8)):
            ss += F.sample_strings(nfs[i], r, 2, max_len=L)
        for s in ss + [s[1:] for s in ss[:3]]:
            if len(s) * m > (10**6 if c['labels'] < 4 else 10**7):
                continue
            ws = [w for w in (sim(i).weight(s) for i in pool) if w is not None]
            check_eq(two.weight(s), max(ws) if ws else None, 'weight of', s[:20], len(s))
            some += 1
    else:
        two, one = F.Sim(outs[0]), sim(0)
        ss = F.sample_strings(nfs[0], r, 4)
        e = one.weight(())
        if e is None or e <= 0:
            check(nfs[0][0] == 0 or two.weight(()) is not None and two.weight(()) >= 0, 'the empty string is not in the closure')
        if (e is None or e <= 0) and ss:
            for _ in range(6):
                parts = [r.choice(ss) for _ in range(r.randint(1, 3))]
                t = sum(parts, ())
                got = two.weight(t)
                check(got is not None and got >= sum(one.weight(p) for p in parts), 'closure misses', t[:20])
                # the best way to cut it into strings of the machine
                if len(t) <= 24:
                    best = [0.0] + [F.NEG] * len(t)
                    for q in range(1, len(t) + 1):
                        for p in range(q):
                            w = one.weight(t[p:q]) if best[p] > F.NEG else None
                            if w is not None:
                                best[q] = max(best[q], best[p] + w)
                    check_eq(got, best[-1], 'closure weight of', t)
                some += 1
    return some > 2, [op, 'more than 1000 arcs' if m > 1000 else 'up to 1000 arcs']


SUBS = [Sub('union', lambda: gen.spread(gen.wide(union_case(), ['fs']), ['fs'], 100), run_union, 4000), Sub('closure', lambda: gen.spread(gen.wide(closure_case(), ['fs']), ['fs'], 100), run_closure, 5000),
        Sub('reverse', lambda: gen.spread(gen.wide(reverse_case(), ['fs']), ['fs'], 100), run_reverse, 4000), Sub('replace', replace_case, run_replace, 4000),
        Sub('big', big_case, run_big, 160)]
