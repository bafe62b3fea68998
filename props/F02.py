"""F02: reported FSA properties equal their definitions; invalid machines are refused."""
import random

import torch
import k2
import _k2
from hypothesis import strategies as st

from vlib import fsa as F, gen
from vlib.core import Sub, check, check_eq, raises

TECHNIQUE = 'generated arc lists (valid and invalid) and operation chains; reported property bits against their definitions'
NOTE = 'Every bit is recomputed from the arcs in Python; the true (graph-theoretic) reachability is also compared.'
RULE = ('arcs: vectors of 0-4 arc lists with arbitrary destinations and labels. tensor: flat and 2-D int tensors. '
        'ops: chains of 1-6 algorithms, edits and selections. Non-trivial: at least two arcs.')

VALID, NONEMPTY, TOP, TOPACY, SORTED, DET, EPSFREE, ACC, COACC = [1 << i for i in range(9)]
ALL = 0x1ff
NAMES = ['Valid', 'Nonempty', 'TopSorted', 'TopSortedAndAcyclic', 'ArcSorted', 'ArcSortedAndDeterministic',
         'EpsilonFree', 'MaybeAccessible', 'MaybeCoaccessible']


def u32(x):
    return x & 0xffffffff


def define(n, arcs):
    """The property bits of one machine from its definition; arcs in order, grouped by source."""
    p = ALL
    if not arcs:
        p &= ~NONEMPTY
    prev = None
    entered, left = set(), set()
    for a in arcs:
        s, d, l = a[:3]
        if l < -1 or not 0 <= d < n or (l == -1) != (d == n - 1):
            p &= ~VALID
        if d < s:
            p &= ~(TOP | TOPACY)
        if d <= s:
            p &= ~TOPACY
        if l == 0:
            p &= ~EPSFREE
        if d != s:
            entered.add(d)
            left.add(s)
        if prev is not None and prev[0] == s:
            if (u32(l), d) < (u32(prev[2]), prev[1]):
                p &= ~SORTED
            if u32(l) <= u32(prev[2]):
                p &= ~DET
        prev = a
    if n:
        if not arcs:
            p &= ~(ACC | COACC)
        if (entered | {0}) != set(range(n)) and not set(range(n)) <= (entered | {0}):
            p &= ~ACC
        if not set(range(n)) <= (left | {n - 1}):
            p &= ~COACC
    return p


def names_of(p):
    return '"' + '|'.join(nm for i, nm in enumerate(NAMES) if p >> i & 1)


def strip(s):
    return s.strip('"').split('|')


def compare(got, n_arcs_list, *what):
    want = ALL
    for n, arcs in n_arcs_list:
        want &= define(n, arcs)
    # the documentation forbids arcs leaving the final state, the validity bit does not look at them
    care = ALL if not any(a[0] == n - 1 for n, arcs in n_arcs_list for a in arcs) else ALL & ~VALID
    check(got & care == want & care, 'properties', names_of(got), 'want', names_of(want), n_arcs_list, *what)
    # what the bits promise
    for n, arcs in n_arcs_list:
        if not n or not got & VALID:
            continue
        nf = (n, [a if len(a) > 3 else tuple(a) + (0.,) for a in arcs])
        if got & TOPACY:
            check(F.is_acyclic(nf), 'called acyclic', nf)
        if got & TOP:
            check(F.is_acyclic(nf, True), 'called top-sorted', nf)
        if got & DET:
            seen = set()
            for a in arcs:
                check((a[0], a[2]) not in seen, 'called deterministic', nf)
                seen.add((a[0], a[2]))
        if got & TOP and got & ACC:
            ac, _ = F.reach(nf)
            check(ac == set(range(n)), 'called accessible', nf)
        if got & TOP and got & COACC:
            _, co = F.reach(nf)
            check(co == set(range(n)), 'called coaccessible', nf)
    return want


# ------------------------------------------------------------------ raw arc lists
@st.composite
def raw(draw, maxn=5):
    n = draw(st.integers(0, maxn))
    if n == 0:
        return {'n': 0, 'arcs': []}
    wild = draw(st.integers(0, 4))    # how much is wrong
    arcs = []
    for s in range(n if wild == 4 else max(n - 1, 1) if n == 1 else n - 1):
        for _ in range(draw(st.integers(0, 3))):
            fwd = draw(st.integers(0, 2))
            d = draw(st.integers(s if n == 1 else min(s + 1, n - 1), n - 1)) if fwd else draw(st.integers(0, n - 1))
            l = -1 if d == n - 1 else draw(st.integers(0, 3))
            if wild and draw(st.integers(0, 14)) == 0:
                d = draw(st.sampled_from([-1, n, n + 1, n - 1, 0, -2**31, 2**31 - 1, -n]))
            if wild and draw(st.integers(0, 14)) == 0:
                l = draw(st.sampled_from([-1, -2, 0, 1, -2**31, 2**31 - 1, -3]))
            arcs.append([s, d, l, draw(st.integers(-8, 8))])
    if draw(st.booleans()):
        arcs.sort(key=lambda a: (a[0], u32(a[2]), a[1]))
    return {'n': n, 'arcs': arcs}


@st.composite
def arcs_case(draw):
    return {'fs': draw(st.lists(raw(), max_size=4)), 'single': draw(st.booleans())}


def run_arcs(c):
    fs = c['fs']
    if c['single']:
        if not fs:
            return False, []
        fs = fs[:1]
        ra = F.mk_arcs(fs[0])
        got = _k2.get_fsa_basic_properties(ra)
    else:
        ra = F.mk_vec_arcs(fs)
        got = _k2.get_fsa_vec_basic_properties(ra)
    nfs = [(f['n'], [tuple(a) for a in f['arcs']]) for f in fs]
    want = compare(got, nfs)
    s = _k2.fsa_properties_as_str(got)
    check_eq(set(strip(s)) - {''}, {nm for i, nm in enumerate(NAMES) if got >> i & 1}, 'as text')
    check_eq(k2.fsa_properties.to_str(got), s, 'to_str')
    for nm, b in (('is_arc_sorted', SORTED), ('is_accessible', ACC), ('is_coaccessible', COACC)):
        fn = getattr(k2, nm, None) or getattr(k2.fsa_properties, nm, None)
        if fn is not None:
            check_eq(bool(fn(got)), bool(got & b), nm)
    if got & VALID:
        f = k2.Fsa(ra)
        check_eq(f.properties, got, 'Fsa.properties')
        check_eq(f.properties_str, s, 'Fsa.properties_str')
        lab = 'valid'
    else:
        raises(lambda: k2.Fsa(ra), 'invalid machine', nfs)
        lab = 'invalid'
    return sum(len(f['arcs']) for f in fs) >= 2, [lab, 'single' if c['single'] else 'vec']


# ------------------------------------------------------------------ tensors
@st.composite
def tensor_case(draw):
    f = draw(raw())
    return {'f': f, 'shuffle': draw(st.integers(0, 5)), 'cols': draw(st.sampled_from([4] * 8 + [3, 5])),
            'seed': draw(st.integers(0, 999)), 'dtype': draw(st.sampled_from(['i'] * 8 + ['f', 'l']))}


def run_tensor(c):
    """A single machine from its arc tensor: accepted exactly if the rows describe one."""
    f = c['f']
    arcs = [list(a) for a in f['arcs']]
    if c['shuffle'] == 0:
        random.Random(c['seed']).shuffle(arcs)
    t = F._arc_tensor(arcs)
    if c['cols'] != 4:
        t = torch.zeros((len(arcs), c['cols']), dtype=torch.int32)
    if c['dtype'] == 'f':
        t = t.float()
    elif c['dtype'] == 'l':
        t = t.long()
    fin = {a[1] for a in arcs if a[2] == -1}
    srcs = [a[0] for a in arcs]
    if fin and max(fin) > 10**6:
        return False, ['huge state']    # Z01
    ok = bool(arcs) and c['cols'] == 4 and c['dtype'] == 'i' and srcs == sorted(srcs) and len(fin) == 1
    if ok:
        n = max(fin) + 1
        ok = n > 1 and define(n, [tuple(a) for a in arcs]) & VALID != 0 and max(srcs) < n
        if ok and max(srcs) == n - 1:
            return False, ['arcs leave the final state']
    if not arcs:
        # no arcs: nothing to read a final state from
        try:
            r = k2.Fsa(t)
        except Exception:
            return False, ['empty refused']
        check_eq((r.shape[0], r.num_arcs), (0, 0), 'empty tensor')
        return False, ['empty accepted']
    if max(srcs) > max(fin | {0}):
        return False, ['source beyond the final state']   # Z01
    if not ok:
        raises(lambda: k2.Fsa(t), 'tensor', arcs)
        return len(arcs) >= 2, ['refused']
    r = k2.Fsa(t)
    check_eq(F.rd(r)[0], (n, [tuple(a[:3]) + (F.f8(a[3]),) for a in arcs]), 'from tensor')
    compare(r.properties, F.rd(r))
    return len(arcs) >= 2, ['accepted']


# ------------------------------------------------------------------ chains
OPS = ['arc_sort', 'connect', 'top_sort', 'remove_epsilon', 'rm_eps_self', 'determinize', 'add_eps', 'invert', 'invert_',
       'union', 'closure', 'index', 'item', 'vec', 'clone', 'detach', 'to', 'labels', 'labels_same', 'scores', 'shortest', 'prune',
       'isect', 'compose', 'reverse', 'dict', 'rename', 'minus_one', 'paths', 'split']


@st.composite
def ops_case(draw):
    return {'fs': draw(gen.fsa_vec(1, 3, acyclic=draw(st.booleans()), top_sorted=draw(st.booleans()), max_states=5, max_arcs=6,
                                   self_loops=True)),
            'ops': draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 10**6)), min_size=1, max_size=6))}


def run_ops(c):
    cur = F.mk_vec(c['fs'])
    m = cur.num_arcs
    labels = set()
    nontriv = False

    def aux(x):
        if isinstance(getattr(x, 'aux_labels', None), k2.RaggedTensor):
            del x.aux_labels
        if not hasattr(x, 'aux_labels'):
            lab = x.labels.clone()
            x.aux_labels = torch.where(lab == -1, lab, (lab * 2 + torch.arange(len(lab), dtype=torch.int32)) % 4)

    def same(x, what):
        rd = F.rd(x)
        compare(x.properties, rd, what)
        fresh = (_k2.get_fsa_basic_properties if len(x.shape) == 2 else _k2.get_fsa_vec_basic_properties)(x.arcs)
        check_eq(x.properties, fresh, 'cached properties after', what)
        check_eq(set(strip(x.properties_str)) - {''}, {nm for i, nm in enumerate(NAMES) if x.properties >> i & 1})
        return x
    same(cur, 'start')
    for op, k in c['ops']:
        r = random.Random(k)
        if len(cur.shape) == 2:
            cur = k2.create_fsa_vec([cur])
        rd = F.rd(cur)
        if cur.shape[0] == 0 or cur.num_arcs > 120:
            break
        acy = all(F.is_acyclic(x) for x in rd)
        acy_sl = all(F.is_acyclic(x, True) for x in rd)
        top = bool(cur.properties & TOPACY)
        single = cur.shape[0] == 1
        src = cur[0] if single and r.random() < .5 and rd[0][0] else cur
        before = cur.properties
        out = None
        if op == 'arc_sort':
            out = k2.arc_sort(src)
            check(out.properties & SORTED, 'arc_sort does not sort', rd)
        elif op == 'connect':
            out = k2.connect(src)
            for n, arcs in F.rd(out):
                if n:
                    ac, co = F.reach((n, arcs))
                    check(ac == co == set(range(n)), 'connect leaves useless states', rd, (n, arcs))
            check(out.properties & ACC and out.properties & COACC or all(n == 0 for n, _ in F.rd(out)) or
                  any(n == 0 for n, _ in F.rd(out)), 'bits after connect')
        elif op == 'top_sort':
            if not (acy_sl and not any(a[1] == 0 and a[0] != 0 for n, arcs in rd for a in arcs)) or any(n == 0 for n, _ in rd):
                continue
            out = k2.top_sort(src)
            check(out.properties & TOP, 'top_sort does not sort', rd, F.rd(out))
        elif op == 'remove_epsilon':
            if not acy:
                continue
            out = k2.remove_epsilon(src)
            check(out.properties & EPSFREE, 'epsilons left', rd, F.rd(out))
        elif op == 'rm_eps_self':
            if not acy:
                continue
            out = k2.remove_epsilon_and_add_self_loops(src)
        elif op == 'determinize':
            if not acy:
                continue
            out = k2.determinize(k2.arc_sort(k2.connect(src)))
            for n, arcs in F.rd(out):
                seen = set()
                for a in arcs:
                    check((a[0], a[2]) not in seen, 'determinize leaves a choice', rd)
                    seen.add((a[0], a[2]))
        elif op == 'add_eps':
            out = k2.add_epsilon_self_loops(src)
        elif op in ('invert', 'invert_', 'rename', 'compose'):
            if op == 'compose':
                if len(src.shape) != 2 or not acy:
                    continue
                aux(src)
                b = k2.linear_fsa([r.randint(1, 3) for _ in range(r.randint(0, 3))])
                b = k2.arc_sort(k2.add_epsilon_self_loops(b)) if r.random() < .5 else k2.arc_sort(b)
                b.aux_labels = b.labels.clone()
                out = k2.compose(src, b)
            else:
                aux(cur)
                if op == 'invert':
                    out = k2.invert(cur)
                elif op == 'invert_':
                    out = cur.clone().invert_()
                else:
                    out = cur.clone()
                    out.rename_tensor_attribute_('aux_labels', 'labels')
                    check_eq(out.labels.tolist(), [-1 if l == -1 else max(x, 0) for x, l in zip(cur.aux_labels.tolist(), cur.labels.tolist())],
                             'renamed')
        elif op == 'union':
            out = k2.union(cur) if all(n for n, _ in rd) else None
        elif op == 'closure':
            if len(src.shape) == 2 and not any(a[1] == 0 for a in rd[0][1]):
                out = k2.closure(src)
        elif op == 'reverse':
            out = k2.reverse(src)
        elif op == 'index':
            out = k2.index_fsa(cur, torch.tensor([r.randrange(cur.shape[0]) for _ in range(r.randint(1, 3))], dtype=torch.int32))
        elif op == 'item':
            i = r.randrange(cur.shape[0])
            out = cur[i]
            compare(out.properties, [rd[i]], 'item')
        elif op == 'vec':
            out = k2.create_fsa_vec([cur[i] for i in range(cur.shape[0])] + ([k2.linear_fsa([r.randint(0, 3)])]
                                                                            if r.random() < .5 else []))
        elif op == 'clone':
            out = cur.clone()
        elif op == 'detach':
            out = cur.detach()
        elif op == 'to':
            out = cur.to('cpu')
        elif op in ('labels', 'minus_one', 'labels_same'):
            out = cur.clone()
            fin = [l == -1 for l in cur.labels.tolist()]
            if op == 'labels':
                new = [r.choice([0, -1]) if x else r.randint(0, 3) for x in fin]
            else:
                new = [r.choice([0, -1]) if x else r.choice([-1, 0, 2]) for x in fin]
            if op != 'labels_same':
                out.labels = torch.tensor(new, dtype=torch.int32)
                check_eq(out.labels.tolist(), [-1 if x else max(l, 0) for l, x in zip(new, fin)], 'labels assigned')
                if True in fin and r.random() < .2:
                    # not a final label: refused, and the machine no longer claims to be valid
                    bad = out.clone()
                    new[fin.index(True)] = 5
                    raises(lambda: setattr(bad, 'labels', torch.tensor(new, dtype=torch.int32)), 'label on a final arc')
                    try:
                        p = bad.properties
                    except (ValueError, RuntimeError):
                        p = None
                    if p is not None:
                        compare(p, F.rd(bad), 'after a refused assignment')
                    labels.add('refused')
            else:
                out.labels = out.labels.clone()
                check_eq(F.rd(out), rd, 'labels reassigned')
        elif op == 'scores':
            out = cur.clone()
            out.scores = torch.tensor([r.randint(-8, 8) / 8 for _ in range(cur.num_arcs)])
        elif op == 'shortest':
            if top:
                out = k2.shortest_path(cur, False)
        elif op == 'prune':
            if top and all(n for n, _ in rd):
                out = k2.prune_on_arc_post(cur, 0.1, True)
        elif op == 'isect':
            if acy and len(src.shape) == 2 and rd[0][0]:
                a = k2.arc_sort(src)
                b = k2.arc_sort(k2.linear_fsa([r.randint(1, 3) for _ in range(r.randint(0, 3))]))
                for x in (a, b):
                    for nm in ('aux_labels',):
                        if hasattr(x, nm):
                            x = x.clone()
                if hasattr(a, 'aux_labels'):
                    continue
                out = k2.intersect(a, b, treat_epsilons_specially=r.random() < .5)
        elif op == 'dict':
            out = k2.Fsa.from_dict(cur.as_dict())
        elif op == 'paths':
            if top and all(n for n, _ in rd) and all(F.count_paths(x) for x in rd):
                k2.random_paths(cur, False, 3)
                out = cur
        elif op == 'split':
            out = k2.create_fsa_vec([cur[cur.shape[0] - 1]])
        if out is None:
            continue
        labels.add(op)
        check_eq(cur.properties, before, 'properties of the input changed by', op)
        same(cur, 'input of ' + op)
        same(out, op)
        nontriv |= out.num_arcs >= 2
        cur = out
    return nontriv, sorted(labels)


SUBS = [Sub('arcs', arcs_case, run_arcs, 8000), Sub('tensor', tensor_case, run_tensor, 3000), Sub('ops', ops_case, run_ops, 4000)]
