"""S03: the shortest path is a best-scoring complete path."""
import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, close

TECHNIQUE = 'shortest_path on generated machines against full path enumeration (and a dynamic program for large ones)'
NOTE = 'Every output arc is traced to its source arc through an index attribute.'
RULE = ('Vectors of 0-4 top-sorted acyclic FSAs (ties, -inf and huge scores, dead and empty members) with random '
        'attributes. huge: machines of up to 70000 states or arcs. A share of the machines has labels near the limits of 8, 16 and 31 bits, and some have up to 70000 isolated states. Non-trivial: a member with two or more complete paths.')
NEG = float('-inf')


@st.composite
def case(draw):
    fs = draw(gen.fsa_vec(0, 4, max_states=7, max_arcs=10))
    mode = draw(st.sampled_from(['plain', 'plain', 'plain', 'ninf', 'huge', 'ties']))
    for f in fs:
        for a in f['arcs']:
            if mode == 'ninf' and draw(st.integers(0, 5)) == 0:
                a[3] = None
            elif mode == 'huge':
                a[3] *= 4096
            elif mode == 'ties':
                a[3] = a[3] % 2
    return {'fs': fs, 'dbl': draw(st.booleans()), 'at': draw(attrs.spec()), 'single': draw(st.integers(0, 9)) == 0}


@st.composite
def large(draw):
    return {'fs': draw(gen.big_vec(4, 60, 200)), 'dbl': draw(st.booleans()), 'at': draw(attrs.spec()), 'single': False}


def run(c):
    fs = c['fs']
    if c['single'] and fs and fs[0]['n']:
        fs = fs[:1]
        # the docstring allows a single FSA; entering arcs need an FsaVec, so wrap one
        src = k2.create_fsa_vec([F.mk(fs[0])])
    else:
        src = F.mk_vec(fs)
    vals = attrs.attach(src, c['at'])
    out = k2.shortest_path(src, use_double_scores=c['dbl'])
    outs = F.rd(out)
    check_eq(len(outs), len(fs), 'number of paths')
    uid = out.uid.tolist()
    attrs.check_unary(out, vals, c['at'], uid)
    base, k, nontriv = 0, 0, False
    labels = set()
    tot = src.get_tot_scores(True, False).tolist()
    for i, (f, (n, arcs)) in enumerate(zip(fs, outs)):
        nf = F.as_f(f)
        fw = F.forward(nf, False)
        best = fw[-1] if nf[0] else NEG
        cnt = F.count_paths(nf)
        nontriv |= cnt >= 2
        ids = [x - base for x in uid[k:k + len(arcs)]]
        k += len(arcs)
        if cnt == 0:
            check_eq((n, arcs), (0, []), 'shortest path of a machine without one')
            labels.add('no path')
        elif best == NEG and not arcs:
            labels.add('only -inf paths')
        else:
            check_eq(n, len(arcs) + 1, 'not linear')
            s = 0
            for j, (a, x) in enumerate(zip(arcs, ids)):
                check(0 <= x < len(nf[1]), 'arc of another machine', i, x)
                check_eq((a[0], a[1]), (j, j + 1), 'not linear')
                sa = nf[1][x]
                check_eq(sa[0], s, 'not contiguous')
                s = sa[1]
                check_eq((a[2], a[3]), (sa[2], sa[3]), 'label and score of a path arc')
            check_eq(s, nf[0] - 1, 'does not end in the final state')
            got = sum(nf[1][x][3] for x in ids)
            if best != NEG:
                check(close(got, best, 1e-6, 1e-3 if abs(best) > 1e5 else 0), 'not a best path', got, best, i)
                check(close(tot[i], best, 1e-6, 1e-9), 'total score', tot[i], best)
                if cnt <= 200 and n <= 200:
                    ws = [sum(nf[1][x][3] for x in p) for p in F.paths(nf)]
                    check(close(max(ws), got, 1e-6, 1e-3 if abs(best) > 1e5 else 0), 'a better path exists', max(ws), got)
            labels.add('path')
        base += len(nf[1])
    attrs.check_unchanged(src, vals)
    return nontriv, sorted(labels)


@st.composite
def huge(draw):
    return {'h': draw(gen.huge()), 'fs': draw(gen.fsa_vec(0, 2, max_states=4, max_arcs=4)), 'pos': draw(st.integers(0, 2)),
            'dbl': draw(st.booleans()), 'at': draw(attrs.spec()), 'single': False}


def run_huge(c):
    fs = list(c['fs'])
    fs.insert(min(c['pos'], len(fs)), gen.build_huge(c['h']))
    nontriv, _ = run({**c, 'fs': fs})
    return nontriv, [c['h']['kind']]


SUBS = [Sub('huge', huge, run_huge, 60), Sub('small', lambda: gen.spread(gen.wide(case(), ['fs']), ['fs'], 100), run, 7000), Sub('large', lambda: gen.spread(gen.wide(large(), ['fs']), ['fs'], 100), run, 3000)]
