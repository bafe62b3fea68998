"""A01: sorting, trimming and self-loop operations keep the weighted language."""
import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, raises

TECHNIQUE = 'arc_sort/top_sort/connect/epsilon-self-loop functions against graph-isomorphism and language oracles on generated machines'
NOTE = 'Output machines are matched to inputs through an arc-identity attribute; languages compared by enumeration as well.'
RULE = ('One machine or a vector of 0-4 (small drawn arc by arc, or up to 25 states; acyclic or cyclic, self-loops, '
        'unreachable and dead states, parallel arcs), one operation, random attributes. huge: chains, fans, bushes, dead wood of up to 70000 states or arcs. A share of the machines has labels near the limits of 8, 16 and 31 bits, and some have up to 70000 isolated states. Non-trivial: the output differs '
        'from the input.')
M32 = 0xffffffff


def renumbering(nf, out, ids, what):
    """The arcs `ids` of nf became out's arcs: state map old->new, checked to be a function and injective."""
    mp = {}
    for a, x in zip(out[1], ids):
        check(0 <= x < len(nf[1]), what, 'arc of another machine', x)
        b = nf[1][x]
        check_eq((a[2], a[3]), (b[2], b[3]), what, 'label and score')
        for o, n in ((b[0], a[0]), (b[1], a[1])):
            check_eq(mp.setdefault(o, n), n, what, 'state', o, 'got two numbers')
    check_eq(len(set(mp.values())), len(mp), what, 'two states merged')
    if out[0]:
        check_eq(mp.get(0, 0), 0, what, 'start state')
        check_eq(mp.get(nf[0] - 1, out[0] - 1), out[0] - 1, what, 'final state')
    bad = F.well_formed(out)
    check(bad is None, what, 'malformed output', bad, out)
    return mp


def same_language(nf, out, what):
    try:
        a = F.bounded_language(nf, 4, eps=False, limit=3000)
        b = F.bounded_language(out, 4, eps=False, limit=3000)
    except F.TooBig:
        return
    check_eq(b, a, what, 'language')


def apply(op, vec, arcmap):
    if op == 'arc_sort':
        if arcmap:
            return k2.arc_sort(vec, ret_arc_map=True)
        return k2.arc_sort(vec), None
    if op == 'top_sort':
        return k2.top_sort(vec), None
    if op == 'connect':
        return k2.connect(vec), None
    if op == 'add':
        if arcmap:
            return k2.add_epsilon_self_loops(vec, ret_arc_map=True)
        return k2.add_epsilon_self_loops(vec), None
    return k2.remove_epsilon_self_loops(vec), None


@st.composite
def small(draw):
    op = draw(st.sampled_from(['arc_sort', 'top_sort', 'connect', 'connect', 'add', 'remove']))
    acyclic = op == 'top_sort' or draw(st.booleans())
    fs = draw(gen.fsa_vec(0, 4, max_states=6, max_arcs=10, acyclic=acyclic, top_sorted=draw(st.booleans()),
                          self_loops=True))
    if op == 'top_sort':
        pass
    elif draw(st.integers(0, 3)) == 0:      # all states get a successor: hidden dead cycles
        for f in fs:
            have = {a[0] for a in f['arcs']}
            for s in range(1, f['n'] - 1):
                if s not in have:
                    d = draw(st.integers(1, f['n'] - 2))
                    f['arcs'].append([s, d, draw(st.integers(0, 3)), 0])
            f['arcs'].sort(key=lambda a: a[0])
    return {'op': op, 'fs': fs, 'single': draw(st.integers(0, 3)) == 0, 'at': draw(attrs.spec()),
            'map': draw(st.booleans())}


def shuffle_states(f, seed):
    import random
    r = random.Random(seed)
    mid = list(range(1, f['n'] - 1))
    r.shuffle(mid)
    perm = [0] + mid + [f['n'] - 1]
    return {'n': f['n'], 'arcs': sorted([[perm[a[0]], perm[a[1]], a[2], a[3]] for a in f['arcs']], key=lambda a: a[0])}


@st.composite
def large(draw):
    op = draw(st.sampled_from(['arc_sort', 'top_sort', 'connect', 'add', 'remove']))
    acyclic = op == 'top_sort' or draw(st.booleans())
    fs = draw(gen.big_vec(4, 25, 70, acyclic=acyclic, self_loops=True, connected=draw(st.booleans())))
    if op == 'top_sort':
        fs = [shuffle_states(f, len(f['arcs']) * 31 + f['n']) for f in fs]
    return {'op': op, 'fs': fs, 'single': draw(st.integers(0, 5)) == 0, 'at': draw(attrs.spec()), 'map': draw(st.booleans())}


def run(c):
    op, fs = c['op'], c['fs']
    if c['single']:
        if not fs:
            return False, ['nothing']
        fs = fs[:1]
        vec = F.mk(fs[0])
    else:
        vec = F.mk_vec(fs)
    # self-loops on the start state are arcs entering it: top_sort documents them as fine
    nfs = [F.as_f(f) for f in fs]
    vals = attrs.attach(vec, c['at'])
    out, amap = apply(op, vec, c['map'])
    outs = F.rd(out)
    check_eq(len(out.shape), 2 if c['single'] else 3, 'axes')
    check_eq(len(outs), len(fs), 'number of FSAs')
    uid = out.uid.tolist()
    if amap is not None:
        check_eq(amap.dtype, torch.int32)
        check_eq(amap.tolist(), uid, 'arc map')
    attrs.check_unary(out, vals, c['at'], uid, op)
    base, k, changed = 0, 0, False
    for nf, o in zip(nfs, outs):
        ids = [x - base if x >= 0 else -1 for x in uid[k:k + len(o[1])]]
        k += len(o[1])
        base += len(nf[1])
        changed |= o != nf
        if op == 'arc_sort':
            check_eq(sorted(ids), list(range(len(nf[1]))), 'arcs lost or repeated')
            check_eq(o[0], nf[0])
            for a, x in zip(o[1], ids):
                check_eq(a, nf[1][x], 'arc')
            for p, q in zip(o[1], o[1][1:]):
                check(p[0] < q[0] or (p[0] == q[0] and (p[2] & M32, p[1]) <= (q[2] & M32, q[1])), 'not sorted', p, q)
        elif op == 'top_sort':
            check_eq(sorted(ids), list(range(len(nf[1]))), 'arcs lost or repeated')
            check_eq(o[0], nf[0], 'states')
            renumbering(nf, o, ids, op)
            check(all(a[1] >= a[0] for a in o[1]), 'arc going backwards', o)
            same_language(nf, o, op)
        elif op == 'connect':
            ac, co = F.reach(nf)
            live = ac & co
            if 0 not in live or nf[0] - 1 not in live:
                live = set()
            check_eq(o[0], len(live), 'number of states after connect', nf, o)
            want = [i for i, a in enumerate(nf[1]) if a[0] in live and a[1] in live]
            check_eq(sorted(ids), want, 'arcs kept')
            mp = renumbering(nf, o, ids, op)
            same_language(nf, o, op)
        elif op == 'add':
            check_eq(o[0], nf[0], 'states')
            old = [x for x in ids if x >= 0]
            check_eq(old, list(range(len(nf[1]))), 'original arcs')
            loops = sorted(a[0] for a, x in zip(o[1], ids) if x < 0)
            check_eq(loops, list(range(max(0, nf[0] - 1))), 'states with a new loop')
            for a, x in zip(o[1], ids):
                if x < 0:
                    check_eq(a, (a[0], a[0], 0, 0.0), 'epsilon self-loop')
                else:
                    check_eq(a, nf[1][x])
            bad = F.well_formed(o)
            check(bad is None, 'malformed', bad)
        else:
            check_eq(o[0], nf[0], 'states')
            want = [i for i, a in enumerate(nf[1]) if not (a[0] == a[1] and a[2] == 0)]
            check_eq(ids, want, 'arcs kept')
            for a, x in zip(o[1], ids):
                check_eq(a, nf[1][x])
    attrs.check_unchanged(vec, vals, op)
    check_eq([(n, a) for n, a in F.rd(vec)], nfs, 'input changed')
    # doing it again changes nothing
    if op != 'add':
        again, _ = apply(op, out, False)
        check_eq([x[0] for x in F.rd(again)], [x[0] for x in outs], op, 'twice')
        check_eq([sorted(x[1]) for x in F.rd(again)], [sorted(x[1]) for x in outs], op, 'twice') \
            if op != 'top_sort' else None
    else:
        back = k2.remove_epsilon_self_loops(out)
        want = [(n, [a for a in x if not (a[0] == a[1] and a[2] == 0)]) for n, x in nfs]
        check_eq(F.rd(back), want, 'loops added and removed')
    return changed, [op, 'single' if c['single'] else 'vector']


# ------------------------------------------------------------------ top_sort refuses cycles
@st.composite
def cyc(draw):
    fs = draw(gen.fsa_vec(1, 3, max_states=6, max_arcs=8, acyclic=False, empty=False, min_states=3))
    return fs


def run_cyc(fs):
    bad = False
    for f in fs:
        nf = F.as_f(f)
        enters = any(a[1] == 0 and a[0] != 0 for a in nf[1])
        bad |= enters or not F.is_acyclic(nf, ignore_self_loops=True)
    vec = F.mk_vec(fs)
    if bad:
        raises(lambda: k2.top_sort(vec), 'top_sort of a cyclic machine')
    else:
        out = F.rd(k2.top_sort(vec))
        for nf, o in zip([F.as_f(f) for f in fs], out):
            check(all(a[1] >= a[0] for a in o[1]), 'arc going backwards')
            check_eq(len(o[1]), len(nf[1]), 'arcs')
    return bad, ['cyclic' if bad else 'acyclic']


# ------------------------------------------------------------------ tens of thousands of states or arcs
@st.composite
def huge(draw):
    return {'h': draw(gen.huge()), 'fs': draw(gen.fsa_vec(0, 2, max_states=4, max_arcs=4)), 'pos': draw(st.integers(0, 2)),
            'op': draw(st.sampled_from(['arc_sort', 'top_sort', 'connect', 'connect', 'add', 'remove'])),
            'order': draw(st.sampled_from(['sorted', 'shuffled'])), 'single': draw(st.booleans()),
            'at': draw(attrs.spec()), 'map': draw(st.booleans())}


def run_huge(c):
    f = gen.build_huge(c['h'])
    if c['order'] == 'shuffled':
        f = shuffle_states(f, c['h']['seed'])
    fs = list(c['fs'])
    fs.insert(0 if c['single'] else min(c['pos'], len(fs)), f)
    changed, labels = run({**c, 'fs': fs})
    return changed, labels + [c['h']['kind']]


SUBS = [Sub('huge', huge, run_huge, 40), Sub('small', lambda: gen.spread(gen.wide(small(), ['fs']), ['fs'], 100), run, 8000), Sub('large', lambda: gen.spread(gen.wide(large(), ['fs']), ['fs'], 100), run, 2500), Sub('cyclic', cyc, run_cyc, 800)]
