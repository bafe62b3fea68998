"""A02: epsilon removal preserves best-path weights and leaves no epsilon."""
import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, check_close

TECHNIQUE = 'remove_epsilon and remove_epsilon_and_add_self_loops against bounded weighted-language enumeration with epsilon closure'
NOTE = 'Each output arc is traced to the list of source arcs it replaces; both the host (top-sorted) and device algorithms run on CPU.'
RULE = ('One machine or a vector of 1-4, acyclic (top-sorted or not) or cyclic with non-positive epsilon scores, many '
        'epsilons, random attributes. A share of the machines has labels near the limits of 8, 16 and 31 bits, and some have up to 70000 isolated states. big: machines of up to 5000 states, sampled strings. Non-trivial: some member has an epsilon arc on a successful path.')


@st.composite
def case(draw):
    mode = draw(st.sampled_from(['top', 'top', 'acyclic', 'cyclic']))
    kw = dict(acyclic=mode != 'cyclic', top_sorted=mode == 'top', self_loops=mode == 'cyclic', max_label=2)
    if draw(st.integers(0, 2)) == 0:
        fs = draw(gen.big_vec(3, 12, 24, max_label=2, acyclic=mode != 'cyclic'))
    else:
        fs = draw(gen.fsa_vec(1, 4, max_states=6, max_arcs=10, **kw))
    if draw(st.integers(0, 2)) == 0:      # denser epsilons
        for f in fs:
            for a in f['arcs']:
                if a[2] > 0 and draw(st.booleans()):
                    a[2] = 0
    if mode == 'cyclic':
        for f in fs:
            for a in f['arcs']:
                if a[2] == 0:
                    a[3] = -abs(a[3])
    return {'fs': fs, 'single': draw(st.integers(0, 3)) == 0, 'loops': draw(st.booleans()), 'keep': draw(st.booleans()),
            'at': draw(attrs.spec(['f', 'd', 'i', 'aux', 'raux', 'rag', 'obj']))}


def run(c):
    fs = c['fs']
    if c['single']:
        if not fs:
            return False, ['nothing']
        fs = fs[:1]
        src = F.mk(fs[0])
    else:
        src = F.mk_vec(fs)
    vals = attrs.attach(src, c['at'])
    # the device algorithm, used for machines that are not top-sorted, wants connected input
    nfs = [F.as_f(f) for f in fs]
    top = all(a[1] > a[0] for nf in nfs for a in nf[1])
    if not top:
        conn = k2.connect(src)
        if conn is not src:
            m = conn.uid.tolist()
            vals = {k: (kd, [v[i] for i in m], fl) for k, (kd, v, fl) in vals.items()}
            conn.uid = attrs.torch.arange(len(m), dtype=attrs.torch.int32)
            src = conn
        nfs = F.rd(src)
    all_arcs = [a for nf in nfs for a in nf[1]]
    own = [i for i, nf in enumerate(nfs) for _ in nf[1]]
    eps_free = all(a[2] != 0 for a in all_arcs)
    loops = c['loops']
    remove_filler = True
    if loops:
        remove_filler = c['keep']
        out = k2.remove_epsilon_and_add_self_loops(src, remove_filler=remove_filler)
    else:
        out = k2.remove_epsilon(src)
    outs = F.rd(out)
    check_eq(len(out.shape), 2 if c['single'] else 3, 'axes')
    check_eq(len(outs), len(nfs), 'number of FSAs')
    linear = loops and eps_free
    uid = [[x] if x >= 0 else [] for x in out.uid.tolist()] if linear else out.uid.tolist()
    if loops and not remove_filler and not linear:
        uid = [[y for y in x if y != -1] for x in uid]
    k, nontriv = 0, False
    for i, (nf, o) in enumerate(zip(nfs, outs)):
        bad = F.well_formed(o)
        check(bad is None, 'malformed output', bad)
        seen_loops = []
        for a in o[1]:
            ids = uid[k]
            k += 1
            if loops and a[2] == 0:
                check_eq((a[0], a[3], ids), (a[1], 0.0, []), 'epsilon self-loop')
                seen_loops.append(a[0])
                continue
            check(a[2] != 0, 'an epsilon is left', a)
            check(len(ids) >= 1, 'an arc without source', a)
            st_ = None
            for x in ids:
                check_eq(own[x], i, 'arc from another machine')
                b = all_arcs[x]
                check(st_ is None or b[0] == st_, 'source arcs are not a path', ids)
                st_ = b[1]
            check_eq([all_arcs[x][2] for x in ids if all_arcs[x][2] != 0], [a[2]], 'label of merged arcs')
            check_close(a[3], sum(all_arcs[x][3] for x in ids), 'score of merged arcs', rtol=1e-6, atol=1e-4)
        if loops:
            check_eq(sorted(seen_loops), list(range(max(0, o[0] - 1))), 'states with a self-loop')
        stripped = (o[0], [a for a in o[1] if a[2] != 0])
        try:
            want = F.bounded_language(nf, 4, limit=4000)
            got = F.bounded_language(stripped, 4, eps=False, limit=4000)
            check_eq(sorted(got), sorted(want), 'strings')
            for s in want:
                check_close(got[s], want[s], 'best weight of', s, rtol=1e-6, atol=1e-3)
            if any(a[2] == 0 for a in nf[1]) and want:
                ac, co = F.reach(nf)
                nontriv |= any(a[2] == 0 and a[0] in ac and a[1] in co for a in nf[1])
        except F.TooBig:
            pass
    check_eq(k, len(uid), 'arcs')
    # attributes
    for name, (kind, v, fill) in vals.items():
        got = attrs.read(out, name)
        for g, ids in zip(got, uid):
            if linear:
                check_eq(g, v[ids[0]] if ids else fill, 'attribute', name)
                continue
            if kind == 'num':
                check_close(g, sum(v[x] for x in ids), 'attribute', name, rtol=1e-5, atol=1e-4)
            elif kind == 'int':
                e = []
                for x in ids:
                    y = v[x]
                    if not remove_filler:
                        e.append(y)
                    elif y != fill and not (y == -1 and all_arcs[x][2] == -1):
                        e.append(y)
                if not loops and name == 'aux_labels':
                    e = [y for y in e if y != 0]
                if not remove_filler:
                    # whether fillers stay is not what is being decided
                    g = [y for y in g if y not in (fill, -1)]
                    e = [y for y in e if y not in (fill, -1)]
                check_eq(g, e, 'attribute', name, ids)
            else:
                e = [y for x in ids for y in v[x]]
                if not loops and name == 'aux_labels':
                    e = [y for y in e if y != 0]
                check_eq(g, e, 'ragged attribute', name, ids)
    if 'obj' in c['at']['kinds']:
        check_eq(out.meta, src.meta, 'non-tensor attribute')
    attrs.check_unchanged(src, vals)
    return nontriv, ['top-sorted' if top else 'device algorithm', 'loops' if loops else 'plain',
                     'epsilon-free' if eps_free else 'epsilons']


# ------------------------------------------------------------------ too big to list the strings
@st.composite
def big_case(draw):
    k = draw(st.integers(1, 3))
    fs = []
    for _ in range(k):
        kind = draw(st.sampled_from(['rand', 'rand', 'huge', 'cyclic']))
        if kind == 'huge':
            fs.append({'kind': 'huge', 'h': draw(gen.huge(sizes=(60, 300, 1100, 5000), kinds=('chain', 'mixed', 'jump', 'deadwood', 'multi')))})
        else:
            fs.append({'kind': kind, 'seed': draw(st.integers(0, 10**6)), 'n': draw(st.integers(10, 300)), 'd': draw(st.sampled_from([1, 2, 3, 4])),
                       'top': draw(st.booleans())})
    return {'fs': fs, 'labels': draw(st.sampled_from([1, 2, 4, 40])), 'single': k == 1 and draw(st.booleans()), 'loops': draw(st.booleans()),
            'eps': draw(st.sampled_from([0.1, 0.3, 0.5])), 'seed': draw(st.integers(0, 10**6))}


def big_fsas(c):
    import random
    r = random.Random(c['seed'])
    out = []
    for f in c['fs']:
        if f['kind'] == 'huge':
            g = gen.build_huge(f['h'], max_label=c['labels'])
        else:
            q = random.Random(f['seed'])
            g = gen.rand_fsa(q, f['n'], f['n'] * f['d'], max_label=c['labels'], acyclic=f['kind'] == 'rand', self_loops=True)
            if f['kind'] == 'rand' and not f['top']:       # still acyclic, but in no order
                p = list(range(1, f['n'] - 1))
                q.shuffle(p)
                p = [0] + p + [f['n'] - 1]
                g['arcs'] = sorted(([p[a[0]], p[a[1]]] + a[2:] for a in g['arcs']), key=lambda a: a[0])
        for a in g['arcs']:
            if a[2] > 0 and r.random() < c['eps']:
                a[2] = 0
            if a[2] == 0:
                a[3] = -abs(a[3])
        out.append(g)
    return out


def run_big(c):
    import random
    r = random.Random(c['seed'])
    fs = big_fsas(c)
    # (epsilons in a row multiply; keep the number of merged paths in bounds)
    src = F.mk(fs[0]) if c['single'] else F.mk_vec(fs)
    src = k2.connect(src)
    nfs = F.rd(src)
    top = all(a[1] > a[0] for nf in nfs for a in nf[1])
    if any(fan(nf) > (40000 if top else 3000) for nf in nfs):
        return False, ['too many epsilon paths']
    src.uid = attrs.torch.arange(src.num_arcs, dtype=attrs.torch.int32)
    src.uid_filler = -1
    src.f = attrs.torch.arange(src.num_arcs, dtype=attrs.torch.float32)
    eps_free = all(a[2] != 0 for nf in nfs for a in nf[1])
    out = k2.remove_epsilon_and_add_self_loops(src) if c['loops'] else k2.remove_epsilon(src)
    outs = F.rd(out)
    check_eq(len(outs), len(nfs), 'number of FSAs')
    uid = out.uid.tolist()
    if c['loops'] and eps_free:
        uid = [[x] if x >= 0 else [] for x in uid]
    fv = out.f.tolist()
    off = k = 0
    nontriv = False
    for nf, o in zip(nfs, outs):
        bad = F.well_formed(o)
        check(bad is None, 'malformed output', bad)
        arcs, m, seen = nf[1], len(nf[1]), []
        for a in o[1]:
            ids = uid[k]
            k += 1
            if c['loops'] and a[2] == 0:
                check_eq((a[0], a[3], ids), (a[1], 0.0, []), 'epsilon self-loop')
                seen.append(a[0])
                continue
            check(a[2] != 0, 'an epsilon is left', a)
            check(len(ids) >= 1, 'an arc without source', a)
            check(all(off <= x < off + m for x in ids), 'arc from another machine', ids)
            src_arcs = [arcs[x - off] for x in ids]
            check(all(p[1] == q[0] for p, q in zip(src_arcs, src_arcs[1:])), 'source arcs are not a path', ids)
            check_eq([x[2] for x in src_arcs if x[2] != 0], [a[2]], 'label of merged arcs')
            check_eq(a[3], sum(x[3] for x in src_arcs), 'score of merged arcs')
            check_eq(fv[k - 1], float(sum(ids)), 'attribute')
        if c['loops']:
            check_eq(sorted(seen), list(range(max(0, o[0] - 1))), 'states with a self-loop')
        off += m
        one, two = F.Sim(nf), F.Sim((o[0], [a for a in o[1] if a[2] != 0]), eps=False)
        strings = F.sample_strings(nf, r, 12, max_len=6000) + F.sample_strings((o[0], [a for a in o[1] if a[2] != 0]), r, 4, max_len=6000)
        strings += [s[:-1] for s in strings if s][:3] + [s[1:] for s in strings if s][:3]
        for s in strings:
            check_eq(two.weight(s), one.weight(s), 'weight of', s[:20], len(s))
        nontriv |= bool(strings) and any(a[2] == 0 for a in arcs)
    check_eq(k, len(uid), 'arcs')
    return nontriv, ['loops' if c['loops'] else 'plain', 'cyclic' if any(f['kind'] == 'cyclic' for f in c['fs']) else 'acyclic',
                     'more than 1000 arcs' if len(uid) > 1000 else 'up to 1000 arcs']


def fan(nf):
    """About how many arcs the result has: pairs of an epsilon closure and an arc after it."""
    e, o = {}, {}
    for a in nf[1]:
        if a[2] == 0:
            e.setdefault(a[0], set()).add(a[1])
        else:
            o[a[0]] = o.get(a[0], 0) + 1
    tot = 0
    for s in range(nf[0]):
        seen, todo = {s}, [s]
        while todo:
            x = todo.pop()
            tot += o.get(x, 0)
            for y in e.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if tot > 10**6:
            break
    return tot


SUBS = [Sub('remove', lambda: gen.spread(gen.wide(case(), ['fs']), ['fs'], 100), run, 8000),
        Sub('big', big_case, run_big, 600)]
