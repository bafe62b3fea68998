"""A03: determinization preserves weights and yields a deterministic machine."""
import k2
import _k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, check_close

TECHNIQUE = 'determinize against path enumeration: weighted strings, determinism, and output paths traced to best input paths'
NOTE = 'All three weight-pushing types; vectors.'
RULE = ('One machine or a vector of 1-4 connected machines, acyclic (any state order) with random scores, '
        'few labels so that states share labels, random attributes. A share of the machines has labels near the limits of 8, 16 and 31 bits, and some have up to 70000 isolated states. Non-trivial: some member is not deterministic.')

PUSH = [_k2.DeterminizeWeightPushingType.kNoWeightPushing,
        _k2.DeterminizeWeightPushingType.kTropicalWeightPushing,
        _k2.DeterminizeWeightPushingType.kLogWeightPushing]


@st.composite
def case(draw):
    mode = draw(st.sampled_from(['top', 'top', 'acyclic']))
    eps = draw(st.integers(0, 4)) == 0
    kw = dict(acyclic=mode != 'cyclic', top_sorted=mode == 'top', max_label=2, eps=eps, connected=True, min_states=2)
    if mode == 'top' and draw(st.booleans()):
        fs = draw(gen.big_vec(3, 9, 14, max_label=2, eps=eps))
    else:
        fs = draw(gen.fsa_vec(1, 4, max_states=6, max_arcs=10, **kw))
    return {'fs': fs, 'single': draw(st.integers(0, 2)) == 0, 'push': draw(st.integers(0, 2)),
            'at': draw(attrs.spec(['f', 'd', 'i', 'aux', 'raux', 'rag', 'obj']))}


def run(c):
    fs = c['fs']
    if c['single']:
        fs = fs[:1]
        src = F.mk(fs[0])
    else:
        src = F.mk_vec(fs)
    src = k2.connect(src)
    vals = attrs.attach(src, c['at'])
    nfs = F.rd(src)
    all_arcs = [a for nf in nfs for a in nf[1]]
    own = [i for i, nf in enumerate(nfs) for _ in nf[1]]
    out = k2.determinize(src, PUSH[c['push']])
    same = out is src
    outs = F.rd(out)
    check_eq(len(out.shape), len(src.shape), 'axes')
    check_eq(len(outs), len(nfs), 'number of FSAs')
    uid = [[x] for x in out.uid.tolist()] if same else out.uid.tolist()
    k, nontriv = 0, False
    for i, (nf, o) in enumerate(zip(nfs, outs)):
        bad = F.well_formed(o)
        check(bad is None, 'malformed output', bad)
        seen = set()
        for a in o[1]:
            check((a[0], a[2]) not in seen, 'two arcs with one label from a state', a)
            seen.add((a[0], a[2]))
        nontriv |= len({(a[0], a[2]) for a in nf[1]}) < len(nf[1])
        ids = uid[k:k + len(o[1])]
        k += len(o[1])
        for a, x in zip(o[1], ids):
            check(all(own[y] == i for y in x), 'arc from another machine', x)
            if c['push'] == 0:
                check_close(a[3], sum(all_arcs[y][3] for y in x), 'score of merged arcs', rtol=1e-6, atol=1e-4)
        try:
            want = F.language(nf, eps=False, limit=1500)
            best = {}
            for p in F.paths(o, 1500):
                s = F.string_of([o[1][j][2] for j in p], False)
                best[s] = p
                w = sum(o[1][j][3] for j in p)
                check(s in want, 'string not in the input', s)
                check_close(w, want[s], 'weight of', s, rtol=1e-5, atol=1e-3)
                # the source arcs along the path form a best path of the input
                q = [y for j in p for y in ids[j]]
                st_ = 0
                for y in q:
                    b = all_arcs[y]
                    check_eq(b[0], st_, 'source arcs along an output path', q)
                    st_ = b[1]
                check_eq(st_, nf[0] - 1, 'source arcs along an output path end')
                check_eq(F.string_of([all_arcs[y][2] for y in q], False), s, 'labels of the source arcs')
                check_close(sum(all_arcs[y][3] for y in q), want[s], 'score of the source arcs', atol=1e-3)
            check_eq(sorted(best), sorted(want), 'strings')
        except F.TooBig:
            pass
    check_eq(k, len(uid), 'arcs')
    if not same:
        for name, (kind, v, fill) in vals.items():
            got = attrs.read(out, name)
            for g, ids in zip(got, uid):
                if kind == 'num':
                    check_close(g, sum(v[x] for x in ids), 'attribute', name, rtol=1e-5, atol=1e-4)
                elif kind == 'int':
                    check_eq(g, [v[x] for x in ids if v[x] != fill and not (v[x] == -1 and all_arcs[x][2] == -1)],
                             'attribute', name, ids)
                else:
                    check_eq(g, [y for x in ids for y in v[x]], 'attribute', name, ids)
    if 'obj' in c['at']['kinds']:
        check_eq(out.meta, src.meta, 'non-tensor attribute')
    attrs.check_unchanged(src, vals)
    return nontriv, ['push%d' % c['push'], 'same' if same else 'new']


SUBS = [Sub('determinize', lambda: gen.spread(gen.wide(case(), ['fs']), ['fs'], 100), run, 8000)]
