"""F01: FSA interchange formats round-trip exactly and denote the same machine."""
import io
import random

import torch
import k2
import _k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, close

TECHNIQUE = 'generated k2/OpenFst texts read back against an independent model of the format, and write/read round trips of every form'
NOTE = ('Text keeps scores to six significant digits; a machine without arcs prints as the empty text; single machines without '
        'a final arc have no raw-tensor form (refused when read).')
RULE = ('Texts: machines with 0-3 label columns and 0-2 list columns rendered with random white space, blank lines, omitted '
        'scores and number formats; OpenFst texts with permuted states, shuffled lines and several weighted final states. '
        'Round trips: single machines and vectors with all attribute kinds. Non-trivial: two or more arcs.')
NAMES = ['aux_labels', 'aux_labels2', 'aux_labels3']


def f32(x):
    return torch.tensor(x, dtype=torch.float32).item()


# ------------------------------------------------------------------ rendering
class Pen:
    """Random but well-formed spelling."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def ws(self):
        return self.r.choice([' ', ' ', ' ', '\t', '  ', ' \t '])

    def num(self, x):
        k = self.r.randint(0, 5)
        if k == 0 and x == int(x):
            return str(int(x))
        if k == 1:
            return '%.9e' % x
        if k == 2:
            return '%.3f' % x
        if k == 3 and x != 0 and abs(x) < 1:
            return repr(x).replace('0.', '.', 1)
        return repr(x)

    def lst(self, v):
        o = self.r.choice(['[', '[ ', '[', '[\t'])
        c = self.r.choice([']', ' ]', ']', '  ]'])
        return o + self.ws().join(str(x) for x in v) + c

    def line(self, fields):
        s = self.ws().join(fields)
        if self.r.random() < .3:
            s = self.r.choice([' ', '\t', '   ']) + s
        if self.r.random() < .3:
            s += self.r.choice([' ', '\t', '  ', '\r'])
        return s

    def text(self, lines):
        out = []
        for l in lines:
            while self.r.random() < .1:
                out.append(self.r.choice(['', ' ', '\t ']))
            out.append(l)
        s = '\n'.join(out)
        return s if self.r.random() < .2 else s + '\n'


def eighths(w):
    return w / 8


aux_val = st.integers(-1, 9) | st.sampled_from([2**31 - 1, -2**31, 10**6])


@st.composite
def cols(draw, m):
    na, nr = draw(st.sampled_from([0, 0, 1, 1, 2, 3])), draw(st.sampled_from([0, 0, 1, 2]))
    return {'aux': [draw(st.lists(aux_val, min_size=m, max_size=m)) for _ in range(na)],
            'rag': [draw(st.lists(st.lists(st.integers(-3, 99), max_size=3), min_size=m, max_size=m)) for _ in range(nr)]}


def kwargs(c, na, nr):
    """One of the equivalent ways to describe the columns; returns (kwargs, names)."""
    r = random.Random(c['seed'] + 1)
    names = NAMES[:na]
    rn = r.choice([['raa', 'rab'], ['rzz', 'raa'], ['other', 'Aux']])[:nr]
    kw = {'ragged_label_names': rn} if nr or r.random() < .5 else {}
    k = r.randint(0, 2)
    if k == 0 and na <= 1:
        kw['acceptor'] = na == 0
    elif k == 1 and na > 0:
        names = ['foo', 'aux_labels', 'zed'][:na]
        kw['aux_label_names'] = names
    elif na > 0 or r.random() < .5:
        kw['num_aux_labels'] = na
    return kw, names, rn


@st.composite
def k2text(draw):
    f = draw(gen.fsa(acyclic=False, max_states=6, max_arcs=8, max_label=5))
    if draw(st.integers(0, 9)) == 0:
        for a in f['arcs']:
            if a[2] > 0:
                a[2] = draw(st.sampled_from([2**31 - 1, 12345]))
    if draw(st.integers(0, 9)) == 0:
        for a in f['arcs']:
            a[3] = draw(st.integers(-2**23, 2**23))
    m = len(f['arcs'])
    return {'f': f, 'cols': draw(cols(m)), 'seed': draw(st.integers(0, 10**6)),
            'omit': draw(st.integers(0, 3)), 'via': draw(st.integers(0, 1))}


def run_k2text(c):
    f, p = c['f'], Pen(c['seed'])
    aux, rag = c['cols']['aux'], c['cols']['rag']
    lines, arcs = [], []
    for i, (s, d, l, w) in enumerate(f['arcs']):
        x = eighths(w)
        fl = [str(s), str(d), str(l)] + [str(a[i]) for a in aux] + [p.lst(a[i]) for a in rag]
        if c['omit'] and p.r.randint(0, 2) == 0:
            x = 0.0
        else:
            fl.append(p.num(x))
        lines.append(p.line(fl))
        arcs.append((s, d, l, x))
    if f['n']:
        lines.append(p.line([str(f['n'] - 1)]))
    text = p.text(lines)
    kw, names, rn = kwargs(c, len(aux), len(rag))
    fsa = k2.Fsa.from_str(text, **kw)
    check_fsa(fsa, f['n'], arcs, aux, rag, names, rn, repr(text))
    return len(arcs) >= 2, ['k2', '%d aux' % len(aux), '%d lists' % len(rag), 'empty' if not f['n'] else 'states']


def check_fsa(fsa, n, arcs, aux, rag, names, rn, what, exact=True):
    check_eq(len(fsa.shape), 2, 'axes')
    gn, ga = F.rd(fsa)[0]
    check_eq(gn, n, 'number of states', what)
    check_eq([a[:3] for a in ga], [a[:3] for a in arcs], 'arcs', what)
    for g, w in zip(ga, arcs):
        check(g[3] == f32(w[3]) if exact else close(g[3], w[3], 6e-6, 0), 'score', g[3], w[3], what)
    check_eq(fsa.scores.tolist(), [a[3] for a in ga], 'scores')
    check_eq(sorted(dict(fsa.named_tensor_attr(include_scores=False))), sorted(list(names) + list(rn)), 'attribute names', what)
    for nm, v in zip(names, aux):
        t = getattr(fsa, nm)
        check(isinstance(t, torch.Tensor) and t.dtype == torch.int32, 'kind of', nm)
        check_eq(t.tolist(), v, nm, what)
    for nm, v in zip(rn, rag):
        check(isinstance(getattr(fsa, nm), k2.RaggedTensor), 'kind of', nm)
        check_eq(getattr(fsa, nm).tolist(), v, nm, what)


# ------------------------------------------------------------------ OpenFst
@st.composite
def ofst(draw):
    ns = draw(st.integers(1, 5))
    ids = draw(st.lists(st.integers(0, ns + 2), min_size=ns, max_size=ns, unique=True))
    m = draw(st.integers(0, 8))
    sc = st.integers(-40, 40)
    arcs = [[draw(st.sampled_from(ids)), draw(st.sampled_from(ids)), draw(st.integers(0, 5)), draw(sc)] for _ in range(m)]
    k = draw(st.integers(1, 3))
    fin = [[draw(st.sampled_from(ids)), draw(sc)] for _ in range(k)]
    if draw(st.integers(0, 4)) == 0:
        fin.insert(draw(st.integers(0, len(fin))), [draw(st.sampled_from(ids)), None])
    order = draw(st.permutations(list(range(m + len(fin)))))
    return {'arcs': arcs, 'fin': fin, 'order': order, 'cols': draw(cols(m)), 'seed': draw(st.integers(0, 10**6)),
            'omit': draw(st.integers(0, 3)), 'sorted': draw(st.booleans()), 'via': draw(st.integers(0, 1))}


def ofst_model(lines, na, nr):
    """lines: ('arc', s, d, l, cost, aux, rag) or ('fin', s, cost|None)."""
    start, top = None, -1
    for x in lines:
        ss = x[1:3] if x[0] == 'arc' else x[1:2]
        if start is None:
            start = ss[0]
        top = max([top] + list(ss))
    final = max(top + 1, 1)
    sw = lambda s: start if s == 0 else 0 if s == start else s
    by = {}
    for x in lines:
        if x[0] == 'arc':
            by.setdefault(sw(x[1]), []).append((sw(x[1]), sw(x[2]), x[3], -x[4], x[5], x[6]))
    for x in lines:
        if x[0] == 'fin' and x[2] is not None:
            by.setdefault(sw(x[1]), []).append((sw(x[1]), final, -1, -x[2], [-1] * na, [[]] * nr))
    return final + 1, [a for s in sorted(by) for a in by[s]]


def run_ofst(c):
    p = Pen(c['seed'])
    aux, rag = c['cols']['aux'], c['cols']['rag']
    lines, model = [], []
    m = len(c['arcs'])
    order = sorted(c['order']) if c['sorted'] else c['order']
    for i in order:
        if i < m:
            s, d, l, w = c['arcs'][i]
            x = eighths(w)
            fl = [str(s), str(d), str(l)] + [str(a[i]) for a in aux] + [p.lst(a[i]) for a in rag]
            if c['omit'] and p.r.randint(0, 2) == 0:
                x = 0.0
            else:
                fl.append(p.num(x))
            model.append(('arc', s, d, l, x, [a[i] for a in aux], [a[i] for a in rag]))
        else:
            s, w = c['fin'][i - m]
            if w is None:
                fl, x = [str(s), 'Inf'], None
            else:
                x = eighths(w)
                fl = [str(s), p.num(x)]
                if c['omit'] and p.r.randint(0, 2) == 0:
                    fl, x = [str(s)], 0.0
            model.append(('fin', s, x))
        lines.append(p.line(fl))
    text = p.text(lines)
    kw, names, rn = kwargs(c, len(aux), len(rag))
    fsa = k2.Fsa.from_openfst(text, **kw) if c['via'] else k2.Fsa.from_str(text, openfst=True, **kw)
    n, arcs = ofst_model(model, len(aux), len(rag))
    check_fsa(fsa, n, arcs, [[a[4][j] for a in arcs] for j in range(len(aux))],
              [[a[5][j] for a in arcs] for j in range(len(rag))], names, rn, repr(text))
    return m >= 2, ['openfst', '%d aux' % len(aux), '%d finals' % sum(x[0] == 'fin' and x[2] is not None for x in model),
                    'start 0' if model[0][1] == 0 else 'start moved']


# ------------------------------------------------------------------ printing
def parse(text, na, nr, openfst):
    """Independent reader of printed texts: list of token lists."""
    out = []
    for line in text.splitlines():
        toks = line.split()
        if not toks:
            continue
        row, i = [], 0
        while i < len(toks):
            if toks[i] == '[':
                j = toks.index(']', i)
                row.append([int(x) for x in toks[i + 1:j]])
                i = j + 1
            else:
                row.append(toks[i])
                i += 1
        out.append(row)
    return out


@st.composite
def printed(draw):
    fs = draw(gen.fsa_vec(1, 3, acyclic=False, max_states=6, max_arcs=7, max_label=5, scores=draw(
        st.sampled_from([(-40, 40), (-2**24, 2**24), (0, 0)]))))
    ms = [len(f['arcs']) for f in fs]
    return {'fs': fs, 'cols': draw(cols(sum(ms))), 'openfst': draw(st.booleans()), 'seed': draw(st.integers(0, 10**6)),
            'float': draw(st.booleans()), 'third': draw(st.booleans())}


def run_printed(c):
    fs, op = c['fs'], c['openfst']
    vec = F.mk_vec(fs)
    if c['third']:      # scores whose decimal form is long
        vec.scores = vec.scores / 3
    aux, rag = c['cols']['aux'], c['cols']['rag']
    names, rn = NAMES[:len(aux)], ['raa', 'rab'][:len(rag)]
    for nm, v in zip(names, aux):
        setattr(vec, nm, torch.tensor(v, dtype=torch.int32))
    for nm, v in zip(rn, rag):
        setattr(vec, nm, attrs.rag(v))
    if c['float']:
        vec.fl = torch.arange(len(vec.scores), dtype=torch.float32)
        vec.notes = 'hello'
    k = 0
    lab = []
    whole = vec.to_str(openfst=op)
    check_eq(whole, str(vec) if not op else whole, 'str()')
    blocks = []
    for i, f in enumerate(fs):
        m = len(f['arcs'])
        fsa = vec[i]
        ax, rg = [a[k:k + m] for a in aux], [a[k:k + m] for a in rag]
        k += m
        arcs = [tuple(a[:3]) + (fsa.scores[j].item(),) for j, a in enumerate(f['arcs'])]
        text = k2.to_str(fsa, openfst=op)
        blocks.append(f'FsaVec[{i}]: ' + text)
        rows = parse(text, len(aux), len(rag), op)
        exp = []
        for j, a in enumerate(arcs):
            w = -a[3] if op else a[3]
            if op and a[2] == -1:
                exp.append([str(a[0]), w])
            else:
                exp.append([str(a[0]), str(a[1]), str(a[2])] + [str(v[j]) for v in ax] + [v[j] for v in rg] + [w])
        if arcs and not op:
            exp.append([str(f['n'] - 1)])
        check_eq(len(rows), len(exp), 'lines', text)
        for r, e in zip(rows, exp):
            check_eq(len(r), len(e), 'fields', r, e)
            if len(e) == 1:
                check_eq(r, e)
                continue
            check_eq(r[:-1], e[:-1], 'fields')
            check(close(float(r[-1]), e[-1], 6e-6, 0), 'printed score', r[-1], e[-1])
        # simple form: only integer aux_labels
        srows = parse(k2.to_str_simple(fsa, openfst=op), 0, 0, op)
        exp2 = [e if len(e) <= 2 else e[:3] + ([str(ax[0][j])] if ax else []) + [e[-1]] for j, e in enumerate(exp)]
        check_eq([r[:-1] for r in srows], [e[:-1] for e in exp2], 'to_str_simple')
        check(fsa.to_str(openfst=op).startswith('k2.Fsa: ' + text), 'Fsa.to_str', fsa.to_str(openfst=op))
        # read back
        back = k2.Fsa.from_str(text, num_aux_labels=len(ax), ragged_label_names=rn, openfst=op) \
            if not (op and not any(a[2] == -1 for a in arcs)) else None
        if back is None:
            lab.append('no final arc')
            continue
        if not op:
            n = f['n'] if arcs else 0
            check_fsa(back, n, arcs, ax, rg, names, rn, text, exact=False)
        else:
            if arcs and arcs[0][0] != 0:
                lab.append('start without arcs')
                continue      # OpenFst text cannot name a start state that has no line
            lines = [('fin', a[0], -a[3]) if a[2] == -1 else
                     ('arc', a[0], a[1], a[2], -a[3], [v[j] for v in ax], [v[j] for v in rg]) for j, a in enumerate(arcs)]
            n, marcs = ofst_model(lines, len(ax), len(rg))
            check_fsa(back, n, marcs, [[a[4][j] for a in marcs] for j in range(len(ax))],
                      [[a[5][j] for a in marcs] for j in range(len(rg))], names, rn, text, exact=False)
            lab.append('openfst read back')
    check(whole.startswith('k2.FsaVec: \n' + ''.join(blocks)), 'FsaVec.to_str', whole, blocks)
    return k >= 2, ['openfst' if op else 'k2', '%d FSAs' % len(fs)] + lab


# ------------------------------------------------------------------ dict / tensor / file
@st.composite
def stored(draw):
    single = draw(st.booleans())
    fs = draw(gen.fsa_vec(1 if single else 0, 1 if single else 4, acyclic=False, max_states=6, max_arcs=8))
    for f in fs:
        for a in f['arcs']:
            if draw(st.integers(0, 15)) == 0:
                a[3] = None
    return {'fs': fs, 'single': single, 'at': draw(attrs.spec(attrs.ALL, 9)), 'grad': draw(st.booleans()),
            'pre': draw(st.sampled_from(['none', 'none', 'index', 'twice'])),
            'how': draw(st.sampled_from(['dict', 'save', 'tensor', 'tensor_file']))}


def snapshot(fsa):
    d = {'_arcs': [x for x in F.rd(fsa)], '_scores': fsa.scores.tolist(), '_labels': fsa.labels.tolist(), '_shape': len(fsa.shape),
         '_props': fsa.properties}
    for n, v in fsa.named_tensor_attr(include_scores=False):
        d[n] = (str(v.dtype), v.tolist())
    for n, v in fsa.named_non_tensor_attr():
        d['obj:' + n] = v
    return d


def run_stored(c):
    fs = c['fs']
    fsa = F.mk(fs[0]) if c['single'] else F.mk_vec(fs)
    attrs.attach(fsa, c['at'])
    if c['pre'] == 'index' and not c['single'] and fs:
        idx = torch.tensor([len(fs) - 1] + list(range(len(fs))), dtype=torch.int32)
        fsa = k2.index_fsa(fsa, idx)
    elif c['pre'] == 'twice' and not c['single']:
        fsa = k2.Fsa.from_dict(fsa.as_dict())
        if fs:
            fsa = k2.index_fsa(fsa, torch.arange(1, len(fs), dtype=torch.int32))
    if c['grad']:
        fsa.requires_grad_(True)
    want = snapshot(fsa)
    ok = not c['single'] or any(a[2] == -1 for a in fs[0]['arcs'])
    try:
        if c['how'] == 'dict':
            back = k2.Fsa.from_dict(fsa.as_dict())
        elif c['how'] == 'save':
            b = io.BytesIO()
            torch.save(fsa.as_dict(), b)
            b.seek(0)
            back = k2.Fsa.from_dict(torch.load(b, weights_only=False))
        else:
            t = fsa.arcs_as_tensor() if c['at']['seed'] % 2 else k2.to_tensor(fsa)
            check_eq((t.dtype, t.dim()), (torch.int32, 2 if c['single'] else 1), 'tensor')
            if c['how'] == 'tensor_file':
                b = io.BytesIO()
                torch.save(t, b)
                b.seek(0)
                t = torch.load(b)
            ax = getattr(fsa, 'aux_labels', None)
            back = k2.Fsa(t, aux_labels=ax) if ax is not None else k2.Fsa(t)
            want = {k: v for k, v in want.items() if k[0] == '_' or k == 'aux_labels'}
    except (RuntimeError, ValueError):
        check(not ok, 'reading back fails')
        return False, ['no final arc: refused']
    got = snapshot(back)
    if ok:
        check_eq(got, want, 'read back', c['how'])
        check_eq(snapshot(fsa), dict(snapshot(fsa), **want), 'source changed')
    else:
        check_eq(got['_arcs'][0][1], want['_arcs'][0][1], 'arcs')
    return sum(len(f['arcs']) for f in fs) >= 2, [c['how'], 'single' if c['single'] else 'vec']


SUBS = [Sub('k2text', k2text, run_k2text, 5000), Sub('openfst', ofst, run_ofst, 5000), Sub('printed', printed, run_printed, 4000),
        Sub('stored', stored, run_stored, 4000)]
