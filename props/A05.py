"""A05: intersection and composition compute the weighted relation."""
import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, check_close, raises

TECHNIQUE = 'intersect, intersect_device and compose against the path-pair definition (both semirings) plus state-pair reconstruction from the arc maps'
NOTE = 'Bounded weighted-language comparison for cyclic operands; attributes follow both arc maps.'
RULE = ('Two machines or vectors (equal size, or one of them single/size one, or any map for intersect_device) sharing a small '
        'alphabet, epsilons on none, either or both sides, acyclic or cyclic. A share of the machines has labels near the limits of 8, 16 and 31 bits, and some have up to 70000 isolated states. hash: state numbers up to 2**25 and products of tens of thousands of states. Non-trivial: a member of the result has a '
        'successful path with at least one label.')


def operand(draw, lo, hi, mode, eps, max_states=5, max_arcs=8):
    if draw(st.integers(0, 5)) == 0:
        fs = draw(gen.big_vec(hi, 9, 16, max_label=2, eps=eps, acyclic=mode != 'cyclic'))
        while len(fs) < lo:
            fs.append(fs[-1])
    else:
        fs = draw(gen.fsa_vec(lo, hi, max_states=max_states, max_arcs=max_arcs, acyclic=mode != 'cyclic',
                              top_sorted=mode == 'top', max_label=2, eps=eps))
    if mode == 'cyclic':
        for f in fs:
            for a in f['arcs']:
                if a[2] == 0:
                    a[3] = -abs(a[3])
    return fs


def two(draw, shapes, eps_choice=(False, True)):
    mode = draw(st.sampled_from(['top', 'acyclic', 'cyclic']))
    k = draw(st.integers(1, 3))
    shape = draw(st.sampled_from(shapes))
    na, nb = {'vv': (k, k), 'ss': (1, 1), 'sv': (1, k), 'vs': (k, 1), '1v': (1, k), 'v1': (k, 1)}[shape]
    a = operand(draw, na, na, mode, draw(st.sampled_from(eps_choice)))[:na]
    b = operand(draw, nb, nb, mode, draw(st.sampled_from(eps_choice)))[:nb]
    while len(a) < na:
        a.append(a[-1])
    while len(b) < nb:
        b.append(b[-1])
    return a, b, shape


@st.composite
def int_case(draw):
    a, b, shape = two(draw, ['vv', 'ss', 'sv', 'vs', '1v', 'v1'])
    return {'a': a, 'b': b, 'shape': shape, 'special': draw(st.booleans()), 'maps': draw(st.booleans()),
            'aa': draw(attrs.spec(['f', 'i', 'rag', 'aux'])), 'ba': draw(attrs.spec(['f', 'd', 'two', 'l']))}


def build(fs, single, sort=True):
    x = F.mk(fs[0]) if single else F.mk_vec(fs)
    return k2.arc_sort(x) if sort else x


def offs(nfs):
    r = [0]
    for n, a in nfs:
        r.append(r[-1] + len(a))
    return r


def check_pairs(o, ma, mb, A, B, oa, ob, special):
    """Arcs of one output machine against the state-pair construction."""
    pair = {0: (0, 0)}
    todo = [0]
    done = set()
    by = {}
    for j, a in enumerate(o[1]):
        by.setdefault(a[0], []).append(j)
    # states are numbered so that each is reached from an earlier one or not: walk from the start
    while todo:
        s = todo.pop()
        if s in done:
            continue
        done.add(s)
        pa, pb = pair[s]
        seen = set()
        for j in by.get(s, []):
            _, d, l, w = o[1][j]
            x, y = ma[j], mb[j]
            check(x >= 0 or y >= 0, 'an arc from nowhere')
            check((x, y) not in seen, 'a repeated arc', (x, y))
            seen.add((x, y))
            na, nb, ww = pa, pb, 0.0
            if x >= 0:
                e = A[1][x - oa]
                check(0 <= x - oa < len(A[1]) and e[0] == pa and e[2] == l, 'arc map a', (x, e, pa, l))
                na = e[1]
                ww += e[3]
            if y >= 0:
                e = B[1][y - ob]
                check(0 <= y - ob < len(B[1]) and e[0] == pb and e[2] == l, 'arc map b', (y, e, pb, l))
                nb = e[1]
                ww += e[3]
            if x < 0 or y < 0:
                check(special and l == 0, 'an unpaired arc', (x, y, l))
            elif special:
                check(l != 0, 'epsilons were paired', (x, y))
            check_eq(w, ww, 'score')
            if d in pair:
                check_eq(pair[d], (na, nb), 'state pair')
            else:
                pair[d] = (na, nb)
            todo.append(d)
        # every pair is there, unless pruned because it leads nowhere
        need = set()
        for i, e in enumerate(A[1]):
            if e[0] != pa:
                continue
            if special and e[2] == 0:
                need.add((i + oa, -1))
                continue
            for q, f in enumerate(B[1]):
                if f[0] == pb and f[2] == e[2]:
                    need.add((i + oa, q + ob))
        if special:
            for q, f in enumerate(B[1]):
                if f[0] == pb and f[2] == 0:
                    need.add((-1, q + ob))
        check(seen <= need, 'arcs', seen - need)
    return pair


def check_result(outs, ma, mb, nas, nbs, ia, ib, special):
    oa, ob = offs(nas), offs(nbs)
    k, nontriv = 0, False
    for i, o in enumerate(outs):
        A, B = nas[ia[i]], nbs[ib[i]]
        m = len(o[1])
        bad = F.well_formed(o)
        check(bad is None, 'malformed output', bad)
        if o[0]:
            check_pairs(o, ma[k:k + m], mb[k:k + m], A, B, oa[ia[i]], ob[ib[i]], special)
        k += m
        eps = special
        try:
            la, lb = F.bounded_language(A, 4, eps=eps, limit=800), F.bounded_language(B, 4, eps=eps, limit=800)
            lo = F.bounded_language(o, 4, eps=eps, limit=3000)
            check_eq(sorted(lo), sorted(s for s in la if s in lb), 'strings')
            for s, w in lo.items():
                check_close(w, la[s] + lb[s], 'weight of', s, rtol=1e-6, atol=1e-3)
            nontriv |= any(lo)
        except F.TooBig:
            pass
        once = not special or not any(a[2] == 0 for a in A[1]) or not any(a[2] == 0 for a in B[1])
        if once and F.is_acyclic(A) and F.is_acyclic(B):
            try:
                la, lb = F.language(A, eps=eps, log=True, limit=400), F.language(B, eps=eps, log=True, limit=400)
                lo = F.language(o, eps=eps, log=True, limit=4000)
                check_eq(sorted(lo), sorted(s for s in la if s in lb), 'strings')
                for s, w in lo.items():
                    check_close(w, la[s] + lb[s], 'log weight of', s, rtol=1e-5, atol=1e-3)
                nontriv |= any(lo)
            except F.TooBig:
                pass
    return nontriv


def check_attrs(out, ma, mb, va, vb):
    for name in set(va) | set(vb):
        got = attrs.read(out, name)
        if name in va and name in vb:
            want = [(va[name][1][x] if x >= 0 else va[name][2]) + (vb[name][1][y] if y >= 0 else va[name][2])
                    for x, y in zip(ma, mb)]
        else:
            _, v, fill = va.get(name) or vb.get(name)
            want = [v[i] if i >= 0 else fill for i in (ma if name in va else mb)]
        check_eq(got, want, 'attribute', name)


def run_int(c):
    shape = c['shape']
    a = build(c['a'], shape[0] == 's')
    b = build(c['b'], shape[1] == 's')
    va, vb = attrs.attach(a, c['aa'], uid=False), attrs.attach(b, c['ba'], uid=False)
    nas, nbs = F.rd(a), F.rd(b)
    sp = c['special']
    out, ma, mb = k2.intersect(a, b, treat_epsilons_specially=sp, ret_arc_maps=True)
    if not c['maps']:
        out = k2.intersect(a, b, treat_epsilons_specially=sp)
    ma, mb = ma.tolist(), mb.tolist()
    n = max(len(nas), len(nbs))
    check_eq(len(out.shape), 2 if shape == 'ss' else 3, 'axes')
    outs = F.rd(out)
    check_eq(len(outs), n, 'number of FSAs')
    ia = [i if len(nas) > 1 else 0 for i in range(n)]
    ib = [i if len(nbs) > 1 else 0 for i in range(n)]
    nontriv = check_result(outs, ma, mb, nas, nbs, ia, ib, sp)
    check_attrs(out, ma, mb, va, vb)
    check_eq((F.rd(a), F.rd(b)), (nas, nbs), 'inputs')
    attrs.check_unchanged(a, va)
    attrs.check_unchanged(b, vb)
    return nontriv, [shape, 'special' if sp else 'plain']


# ------------------------------------------------------------------ device version
@st.composite
def dev_case(draw):
    mode = draw(st.sampled_from(['top', 'acyclic', 'cyclic']))
    a = operand(draw, 1, 3, mode, draw(st.booleans()))
    b = operand(draw, 1, 4, mode, draw(st.booleans()))
    return {'a': a, 'b': b, 'map': [draw(st.integers(0, len(a) - 1)) for _ in b], 'match': draw(st.booleans()),
            'sorted': draw(st.booleans()), 'maps': draw(st.booleans()),
            'aa': draw(attrs.spec(['f', 'i', 'rag', 'aux'])), 'ba': draw(attrs.spec(['f', 'd', 'two', 'l']))}


def run_dev(c):
    match = c['match']
    a = build(c['a'], False, match or c['sorted'])
    b = build(c['b'], False, c['sorted'])
    va, vb = attrs.attach(a, c['aa'], uid=False), attrs.attach(b, c['ba'], uid=False)
    nas, nbs = F.rd(a), F.rd(b)
    m = torch.tensor(c['map'], dtype=torch.int32)
    out, ma, mb = k2.intersect_device(a, b, m, sorted_match_a=match, ret_arc_maps=True)
    if not c['maps']:
        out = k2.intersect_device(a, b, m, sorted_match_a=match)
    ma, mb = ma.tolist(), mb.tolist()
    outs = F.rd(out)
    check_eq(len(outs), len(nbs), 'number of FSAs')
    nontriv = check_result(outs, ma, mb, nas, nbs, c['map'], list(range(len(nbs))), False)
    check_attrs(out, ma, mb, va, vb)
    check_eq((F.rd(a), F.rd(b), m.tolist()), (nas, nbs, c['map']), 'inputs')
    # documented: every state is accessible except possibly the final one
    for o in outs:
        if o[0]:
            ac, _ = F.reach(o)
            check(ac >= set(range(o[0] - 1)), 'states not accessible', o)
    return nontriv, ['sorted match' if match else 'hash match', 'shared' if len(set(c['map'])) < len(c['map']) else 'distinct']


# ------------------------------------------------------------------ compose
@st.composite
def comp_case(draw):
    a, b, shape = two(draw, ['vv', 'ss', 'sv', 'vs'])
    nb = sum(len(f['arcs']) for f in b)
    na = sum(len(f['arcs']) for f in a)
    lo = draw(st.sampled_from([0, 0, 1]))
    return {'a': a, 'b': b, 'shape': shape, 'special': draw(st.booleans()),
            'aux_a': draw(st.lists(st.integers(lo, 2), min_size=na, max_size=na)),
            'aux_b': draw(st.none() | st.lists(st.integers(0, 3), min_size=nb, max_size=nb)),
            'inner': draw(st.booleans()), 'f': draw(st.booleans())}


def comp_rel(nf, ins, outs, keep_in, keep_out, limit):
    """(in, out) strings -> best weight; keep_*: epsilon is a symbol on that side."""
    d = {}
    for p in F.paths(nf, limit):
        k = (F.string_of([ins[j] for j in p], not keep_in), F.string_of([outs[j] for j in p], not keep_out))
        w = sum(nf[1][j][3] for j in p)
        d[k] = max(d.get(k, F.NEG), w)
    return d


def run_comp(c):
    shape, sp = c['shape'], c['special']

    def mk(fs, single, aux):
        x = F.mk(fs[0]) if single else F.mk_vec(fs)
        if aux is not None:
            l = x.labels.tolist()
            x.aux_labels = torch.tensor([-1 if p == -1 else q for p, q in zip(l, aux)], dtype=torch.int32)
        return x
    a = mk(c['a'], shape[0] == 's', c['aux_a'])
    b = k2.arc_sort(mk(c['b'], shape[1] == 's', c['aux_b']))
    na_, nb_ = a.num_arcs, b.num_arcs
    a.ua, a.ua_filler = torch.arange(na_, dtype=torch.int32), -1
    b.ub, b.ub_filler = torch.arange(nb_, dtype=torch.int32), -1
    if c['f']:
        a.fa = torch.arange(na_, dtype=torch.float32) + 0.5
        b.fa = torch.arange(nb_, dtype=torch.float32) * 2
    inner = 'mid' if c['inner'] and c['aux_b'] is not None else None
    nas, nbs = F.rd(a), F.rd(b)
    out = k2.compose(a, b, treat_epsilons_specially=sp, inner_labels=inner)
    check_eq(len(out.shape), 2 if shape == 'ss' else 3, 'axes')
    outs = F.rd(out)
    n = max(len(nas), len(nbs))
    check_eq(len(outs), n, 'number of FSAs')
    ua, ub = out.ua.tolist(), out.ub.tolist()
    arcs_a, arcs_b = [x for m in nas for x in m[1]], [x for m in nbs for x in m[1]]
    aux_a = a.aux_labels.tolist()
    aux_b = b.aux_labels.tolist() if c['aux_b'] is not None else [x[2] for x in arcs_b]
    aux_o = out.aux_labels.tolist()
    mid = out.mid.tolist() if inner else None
    k = 0
    for o in outs:
        bad = F.well_formed(o)
        check(bad is None, 'malformed output', bad)
        for e in o[1]:
            x, y = ua[k], ub[k]
            check(x >= 0 or y >= 0, 'an arc from nowhere')
            check_eq(e[2], arcs_a[x][2] if x >= 0 else 0, 'label')
            check_eq(aux_o[k], aux_b[y] if y >= 0 else 0, 'aux label')
            w = 0.0
            if x >= 0:
                w += arcs_a[x][3]
                if mid is not None:
                    check_eq(mid[k], aux_a[x], 'inner label')
            if y >= 0:
                w += arcs_b[y][3]
                if mid is not None:
                    check_eq(mid[k], arcs_b[y][2], 'inner label')
            if x >= 0 and y >= 0:
                check_eq(aux_a[x], arcs_b[y][2], 'matched labels')
            else:
                check(sp, 'an unpaired arc')
                check_eq(aux_a[x] if x >= 0 else arcs_b[y][2], 0, 'label of an unpaired arc')
            check_eq(e[3], w, 'score')
            if c['f']:
                check_eq(out.fa[k].item(), (x + 0.5 if x >= 0 else 0) + (2.0 * y if y >= 0 else 0), 'attribute fa')
            k += 1
    offa, offb = offs(nas), offs(nbs)
    k, nontriv = 0, False
    for i, o in enumerate(outs):
        ja, jb = i if len(nas) > 1 else 0, i if len(nbs) > 1 else 0
        A, B = nas[ja], nbs[jb]
        m = len(o[1])
        xo = aux_o[k:k + m]
        k += m
        if not (F.is_acyclic(A) and F.is_acyclic(B)):
            continue
        try:
            ra = comp_rel(A, [x[2] for x in A[1]], aux_a[offa[ja]:offa[ja + 1]], False, not sp, 300)
            rb = comp_rel(B, [x[2] for x in B[1]], aux_b[offb[jb]:offb[jb + 1]], not sp, False, 300)
            want = {}
            for (p, q), w in ra.items():
                for (r, s), z in rb.items():
                    if q == r:
                        want[(p, s)] = max(want.get((p, s), F.NEG), w + z)
            got = comp_rel(o, [x[2] for x in o[1]], xo, False, False, 6000)
            check_eq(sorted(got), sorted(want), 'relation')
            for s, w in want.items():
                check_close(got[s], w, 'weight of', s, rtol=1e-6, atol=1e-3)
            nontriv |= any(p or s for p, s in want)
        except F.TooBig:
            pass
    check_eq((F.rd(a), F.rd(b)), (nas, nbs), 'inputs')
    check_eq(a.aux_labels.tolist(), aux_a, 'aux_labels of a')
    return nontriv, [shape, 'special' if sp else 'plain', 'acceptor b' if c['aux_b'] is None else 'fst b']


# ------------------------------------------------------------------ refusals
@st.composite
def bad_case(draw):
    f = draw(gen.fsa(max_states=4, max_arcs=6, empty=False))
    g = draw(gen.fsa(max_states=4, max_arcs=6, empty=False))
    return {'a': f, 'b': g, 'what': draw(st.sampled_from(['count', 'clash', 'noaux', 'unsorted', 'map']))}


def run_bad(c):
    what = c['what']
    a, b = F.mk_vec([c['a']] * 2), F.mk_vec([c['b']] * 2)
    sa, sb = k2.arc_sort(a), k2.arc_sort(b)
    if what == 'count':
        raises(lambda: k2.intersect(sa, k2.arc_sort(F.mk_vec([c['b']] * 3))), 'vectors of different size')
    elif what == 'clash':
        sa.z = torch.zeros(sa.num_arcs, dtype=torch.int32)
        sb.z = torch.zeros(sb.num_arcs, dtype=torch.int32)
        raises(lambda: k2.intersect(sa, sb), 'clashing integer attributes')
    elif what == 'noaux':
        raises(lambda: k2.compose(sa, sb), 'compose without aux_labels')
    elif what == 'unsorted':
        if a.properties & k2.fsa_properties.ARC_SORTED:
            return False, ['sorted already']
        raises(lambda: k2.intersect(a, sb), 'unsorted a')
        raises(lambda: k2.intersect_device(a, sb, torch.tensor([0, 1], dtype=torch.int32), sorted_match_a=True),
               'unsorted a, sorted_match_a')
    else:
        raises(lambda: k2.intersect_device(sa, sb, torch.tensor([0, 2], dtype=torch.int32)), 'map out of range')
        raises(lambda: k2.intersect_device(sa, sb, torch.tensor([0], dtype=torch.int32)), 'map too short')
    return True, [what]


# ------------------------------------------------------------------ the table of state pairs
# Machines with up to 2**25 states (nearly all of them isolated, so that only the numbers are big) make
# the table's keys need more than 32 bits, and products with many states make the table grow.
@st.composite
def hash_case(draw):
    import random
    k = draw(st.integers(1, 2))
    na = draw(st.sampled_from([1, k]))

    dense = draw(st.integers(0, 5)) == 0

    def one():
        kind = draw(st.sampled_from(['big', 'big', 'small']))
        if dense:
            r = random.Random(draw(st.integers(0, 2**32)))
            n = draw(st.integers(140, 220))
            return gen.rand_fsa(r, n, n * draw(st.sampled_from([2, 3])), max_label=draw(st.integers(1, 2)), acyclic=False, eps=False)
        if kind == 'small':
            return draw(gen.fsa(max_states=5, max_arcs=8, acyclic=False, max_label=2))
        r = random.Random(draw(st.integers(0, 2**32)))
        return gen.rand_fsa(r, draw(st.integers(10, 160)), draw(st.integers(10, 500)),
                            max_label=draw(st.sampled_from([2, 2, 3, 8])), acyclic=draw(st.booleans()), eps=False)
    a, b = [one() for _ in range(na)], [one() for _ in range(k)]
    sizes = draw(st.sampled_from([(0, 0), (0, 0), (40000, 100000), (70000, 70000), (2**17, 2**16), (2**24, 300), (300, 2**24),
                                  (2**20, 2**20), (2**24, 2**22), (2**22, 2**24), (2**24, 2**24), (2**25, 2**24), (2**24, 2**25),
                                  (92000, 92000), (2**17 - 3, 2**17 - 5), (2**18 - 1, 2**16 - 1), (2**16 - 1, 2**18 - 1), (2**21 - 1, 2**21 - 1)]))
    return {'a': a, 'b': b, 'map': [draw(st.integers(0, na - 1)) for _ in b], 'sizes': list(sizes),
            'seed': draw(st.integers(0, 10**6)), 'match': draw(st.booleans()),
            'place': draw(st.sampled_from(['any', 'last', 'last', 'first'])),
            'how': draw(st.sampled_from(['device', 'device', 'device', 'intersect']))}


def mk_spread(fs, size, r, place='any'):
    """FsaVec of fs with isolated states added, and the new number of each state."""
    import _k2
    splits1, counts, pos_of = [0], [], []
    for f in fs:
        n = f['n']
        m = max(n, size // len(fs)) if n >= 2 else n
        if m > n:
            # 'last': state numbers use the highest bit; 'first': all but the final state's are small
            lo, hi = {'any': (1, m - 1), 'last': (max(1, m - 2 * n), m - 1), 'first': (1, min(m - 1, 2 * n))}[place]
            pos = [0] + sorted(r.sample(range(lo, hi), n - 2)) + [m - 1]
        else:
            pos = list(range(n))
        c = torch.zeros(m, dtype=torch.int32)
        for x in f['arcs']:
            c[pos[x[0]]] += 1
        counts.append(c)
        pos_of.append(pos)
        splits1.append(splits1[-1] + m)
    c = torch.cat(counts) if counts else torch.zeros(0, dtype=torch.int32)
    splits2 = torch.zeros(c.numel() + 1, dtype=torch.int32)
    splits2[1:] = torch.cumsum(c, 0)
    sh = k2.ragged.create_ragged_shape2
    shape = sh(row_splits=torch.tensor(splits1, dtype=torch.int32)).compose(sh(row_splits=splits2))
    arcs = [[p[x[0]], p[x[1]]] + list(x[2:]) for f, p in zip(fs, pos_of) for x in f['arcs']]
    return k2.Fsa(_k2.RaggedArc(shape, F._arc_tensor(arcs)))


def run_hash(c):
    import random
    r = random.Random(c['seed'])
    fa = [{'n': f['n'], 'arcs': sorted(f['arcs'], key=lambda x: (x[0], x[2] % 2**32, x[1]))} for f in c['a']]
    fb = [{'n': f['n'], 'arcs': sorted(f['arcs'], key=lambda x: (x[0], x[2] % 2**32, x[1]))} for f in c['b']]
    a, b = mk_spread(fa, c['sizes'][0], r, c.get('place', 'any')), mk_spread(fb, c['sizes'][1], r, c.get('place', 'any'))
    how = c['how']
    if how == 'intersect' and len(fa) != len(fb) and len(fa) != 1:
        how = 'device'
    if how == 'device':
        m = c['map']
        out, ma, mb = k2.intersect_device(a, b, torch.tensor(m, dtype=torch.int32), sorted_match_a=c['match'], ret_arc_maps=True)
    else:
        m = [i if len(fa) > 1 else 0 for i in range(len(fb))]
        out, ma, mb = k2.intersect(a, b, treat_epsilons_specially=False, ret_arc_maps=True)
    ma, mb = ma.tolist(), mb.tolist()
    outs = F.rd(out)
    check_eq(len(outs), len(fb), 'number of FSAs')
    oa, ob = offs([F.as_f(f) for f in fa]), offs([F.as_f(f) for f in fb])
    k, nontriv, most = 0, False, 0
    for i, o in enumerate(outs):
        bad = F.well_formed(o)
        check(bad is None, 'malformed output', bad)
        A, B = F.as_f(fa[m[i]]), F.as_f(fb[i])
        by_a, by_b = {}, {}
        for j, x in enumerate(A[1]):
            by_a.setdefault(x[0], []).append(j)
        for j, x in enumerate(B[1]):
            by_b.setdefault((x[0], x[2]), []).append(j)
        # every pair of states that can be reached, and the arcs between them
        arcs, back, todo, seen = {}, {}, [(0, 0)], {(0, 0)}
        while todo:
            s = todo.pop()
            for x in by_a.get(s[0], []):
                e = A[1][x]
                for y in by_b.get((s[1], e[2]), []):
                    d = (e[1], B[1][y][1])
                    arcs[(s, x, y)] = d
                    back.setdefault(d, []).append(s)
                    if d not in seen:
                        seen.add(d)
                        todo.append(d)
        fin = (A[0] - 1, B[0] - 1)
        good, todo = {fin}, [fin]
        while todo:
            for s in back.get(todo.pop(), []):
                if s not in good:
                    good.add(s)
                    todo.append(s)
        need = {}
        for z, d in arcs.items():
            if z[0] in good and d in good:
                need.setdefault(z[0], set()).add(z)
        n = len(o[1])
        # walk the output from its start state
        by = {}
        for j, e in enumerate(o[1]):
            by.setdefault(e[0], []).append(j)
        pair, todo, count = {0: (0, 0)}, [0], 0
        while o[0] and todo:
            s = todo.pop()
            got = set()
            for j in by.get(s, []):
                _, d, l, w = o[1][j]
                x, y = ma[k + j] - oa[m[i]], mb[k + j] - ob[i]
                z = (pair[s], x, y)
                check(z in arcs, 'no such pair of arcs leaves the state pair', z)
                check(z not in got, 'a repeated arc', z)
                got.add(z)
                check_eq((l, w), (A[1][x][2], A[1][x][3] + B[1][y][3]), 'label and score')
                if d not in pair:
                    pair[d] = arcs[z]
                    todo.append(d)
                check_eq(pair[d], arcs[z], 'state pair')
            check(need.get(pair[s], set()) <= got, 'arcs of successful paths are missing', pair[s], need.get(pair[s]), got)
            count += len(got)
        check(o[0] or not need, 'no result')
        check_eq(count, n, 'arcs from states that cannot be reached')
        # (the start state is not in the table, so that its pair may come back once)
        again = [p for s, p in pair.items() if s]
        check_eq(len(set(again)), len(again), 'two states for one pair')
        k += n
        nontriv |= bool(need)
        most = max(most, len(seen))
    bits = (max(max(f['n'] for f in fa), c['sizes'][0] // len(fa)) * max(sum(f['n'] for f in fb), c['sizes'][1])).bit_length()
    return nontriv, [how + ('/match' if c['match'] and how == 'device' else ''),
                     'keys <= 32 bits' if bits <= 32 else 'keys <= 48 bits' if bits <= 48 else 'keys > 48 bits',
                     'pairs > 16384' if most > 16384 else 'pairs <= 16384']


SUBS = [Sub('intersect', lambda: gen.spread(gen.wide(int_case(), ['a', 'b']), ['a', 'b'], 100), run_int, 6000), Sub('device', lambda: gen.spread(gen.wide(dev_case(), ['a', 'b']), ['a', 'b'], 100), run_dev, 6000),
        Sub('compose', comp_case, run_comp, 5000), Sub('refused', bad_case, run_bad, 300),
        Sub('hash', hash_case, run_hash, 120)]
