"""Z01: what does not describe a valid object is refused, and the process goes on."""
import math
import pickle
import random
import re

import torch
import k2
import _k2
import k2.ragged
from hypothesis import strategies as st

from vlib import fsa as F, gen, ragged as R
from vlib.core import Sub, check, check_all_close, check_close, check_eq, raises

TECHNIQUE = 'fuzzing: mutated and random texts, lists, tensors and arguments; reference parsers decide what is valid'
NOTE = ('Texts that the parsers read leniently (commas in ragged text, a label such as 1.5 in FSA text) may be refused or read; '
        'what is read has to be a valid object that prints and reads back the same. A killed process is a violation.')
RULE = 'text, openfst, tensor, ragged text, lists, shapes, arguments. Non-trivial: the input is not valid, or is valid after a mutation.'

BAD = object()
UNSURE = object()
INT = re.compile(r'^[+-]?[0-9]+$')
NUM = re.compile(r'^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$')


def attempt(fn):
    """(value, None) or (None, exception); anything that is not an Exception goes on."""
    try:
        return fn(), None
    except Exception as e:  # noqa
        return None, e


def alive():
    f = k2.linear_fsa([1, 2])
    check_eq(k2.create_fsa_vec([f]).get_tot_scores(False, False).tolist(), [0.0], 'the library afterwards')
    check_eq(k2.RaggedTensor('[[1 2] [3]]').sum().tolist(), [3, 3], 'the library afterwards')


def valid_arcs(n, arcs):
    """Arcs of one FSA, as the documentation requires them."""
    for i, (s, d, l) in enumerate(arcs):
        if not (0 <= s < n - 1 and 0 <= d < n):
            return False
        if l < -1 or (l == -1) != (d == n - 1):
            return False
        if i and s < arcs[i - 1][0]:
            return False
    return True


def sound(f, *what):
    """An accepted FSA or FsaVec is valid, and prints and reads back the same."""
    props = f.properties
    check(props & 1, 'not valid', f.properties_str, *what)
    for n, arcs in F.rd(f):
        for i, (s, d, l) in enumerate([a[:3] for a in arcs]):
            check(0 <= s < n and 0 <= d < n, 'state out of range', s, d, n, *what)
            check(l >= -1 and (l == -1) == (d == n - 1), 'label of a final arc', s, d, l, n, *what)
            check(not i or s >= arcs[i - 1][0], 'order', *what)
    if len(f.shape) == 2 and f.num_arcs and all(math.isfinite(v) for v in f.scores.tolist()):
        text = k2.to_str_simple(f)
        g = k2.Fsa.from_str(text)
        check_eq(g.arcs.values()[:, :3].tolist(), f.arcs.values()[:, :3].tolist(), 'read back', text, *what)
        check_eq(g.shape, f.shape, 'states read back', text, *what)
        check_all_close(g.scores.tolist(), f.scores.tolist(), 'scores read back', text, *what, rtol=1e-4, atol=1e-5)


# ------------------------------------------------------------------ FSA text
TOK = ['-1', '0', '1', '2', '7', '-2', '99', 'x', '1.5', '[', ']', '[1 2]', '[ ]', '', '1e3', 'inf', 'nan', '--1', '0x1', '99999999999', '-0.5', '1 1', '.', '#', '\x00', 'é', '+1']
MUT = st.lists(st.tuples(st.sampled_from(['tok', 'drop', 'add', 'line-', 'line2', 'swap', 'char', 'cut', 'join', 'blank', 'tail']), st.integers(0, 999), st.integers(0, 999), st.sampled_from(TOK)), max_size=3)


def text_case():
    return st.fixed_dictionaries({'f': gen.fsa(max_states=5, acyclic=False), 'aux': st.integers(0, 2), 'rag': st.integers(0, 1), 'score': st.booleans(), 'muts': MUT, 'openfst': st.booleans(),
                                  'seed': st.integers(0, 10**6)})


def render(c):
    r = random.Random(c['seed'])
    n, arcs = c['f']['n'], c['f']['arcs']
    if n < 2:
        return ''
    lines = []
    for s, d, l, w in arcs:
        t = [str(s), str(d), str(l)] + [str(r.randint(-1, 9)) for _ in range(c['aux'])]
        t += ['[' + ' '.join(str(r.randint(0, 9)) for _ in range(r.randint(0, 2))) + ']' for _ in range(c['rag'])]
        if c['score'] or r.random() < .5:
            t.append(repr(w / 8))
        lines.append(' '.join(t))
    if c['openfst']:
        lines = [q for q, a in zip(lines, arcs) if a[2] != -1]
        for s in range(n - 1):
            if r.random() < .4:
                lines.append(str(s) if r.random() < .5 else f'{s} {r.randint(-8, 8) / 8}')
    else:
        lines.append(str(n - 1))
    return '\n'.join(lines)


def mutate(text, muts):
    for kind, a, b, tok in muts:
        lines = text.split('\n')
        i = a % len(lines)
        t = lines[i].split(' ')
        j = b % len(t)
        if kind == 'tok':
            t[j] = tok
            lines[i] = ' '.join(t)
        elif kind == 'drop':
            del t[j]
            lines[i] = ' '.join(t)
        elif kind == 'add':
            t.insert(j, tok)
            lines[i] = ' '.join(t)
        elif kind == 'line-':
            del lines[i]
        elif kind == 'line2':
            lines.insert(b % (len(lines) + 1), lines[i])
        elif kind == 'swap':
            k = b % len(lines)
            lines[i], lines[k] = lines[k], lines[i]
        elif kind == 'char':
            text = '\n'.join(lines)
            if text:
                p = (a * 31 + b) % len(text)
                text = text[:p] + tok[:1] + text[p + 1:]
            continue
        elif kind == 'cut':
            text = '\n'.join(lines)
            text = text[:(a * 31 + b) % (len(text) + 1)]
            continue
        elif kind == 'join' and i + 1 < len(lines):
            lines[i:i + 2] = [lines[i] + ' ' + lines[i + 1]]
        elif kind == 'blank':
            lines.insert(i, ' ' * (b % 3))
        elif kind == 'tail':
            lines.append(tok)
        text = '\n'.join(lines)
    return text


def huge(t):
    """Beyond what a float holds: refused, or read as infinity or 0."""
    return float(t) != 0 and not 1e-37 < abs(float(t)) < 3e38


def i32(t):
    return INT.match(t) is not None and -2**31 <= int(t) < 2**31


def readable(line, aux, rag):
    """Whether numbers can be read one after the other, in the manner of C++ streams."""
    m = re.match(r'\s*' + r'([+-]?[0-9]+)\s*' * 3 + r'([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)\s*' * aux + r'\[([^\[\]]*)\]\s*' * rag
                 + r'(?:[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\s*)?$', line)
    if m is None:
        return False
    ok = all(i32(v) for v in m.groups()[:3])
    return ok and all(re.match(r'(\s*[+-]?[0-9]+)*\s*$', v) for v in m.groups()[3 + aux:3 + aux + rag])


def fields(line, aux, rag):
    """(src, dest, label, aux, ragged, score) of an arc, BAD or UNSURE."""
    if any(ord(ch) > 126 or (ord(ch) < 32 and ch not in '\t') for ch in line):
        return UNSURE
    if not readable(line, aux, rag):
        return BAD
    parts = re.findall(r'\[[^\[\]]*\]|\S+', line)
    if not 3 + aux + rag <= len(parts) <= 4 + aux + rag or not all(i32(p) for p in parts[:3 + aux]):
        return UNSURE
    rows = []
    for p in parts[3 + aux:3 + aux + rag]:
        if not (p.startswith('[') and p.endswith(']') and all(i32(q) for q in p[1:-1].split())):
            return UNSURE
        rows.append([int(q) for q in p[1:-1].split()])
    w = 0.0
    if len(parts) == 4 + aux + rag:
        if not NUM.match(parts[-1]) or huge(parts[-1]):
            return UNSURE
        w = float(parts[-1])
    return int(parts[0]), int(parts[1]), int(parts[2]), [int(p) for p in parts[3:3 + aux]], rows, w


def ref_k2(text, aux, rag):
    """(states, arcs) of a text in the format of k2, BAD or UNSURE."""
    arcs, final = [], None
    unsure = False
    for line in text.split('\n'):
        if any(ord(ch) > 126 or ord(ch) < 32 for ch in line):
            return UNSURE
        if not line.strip():
            continue
        if final is not None:
            return BAD
        t = line.split()
        if len(t) == 1:
            if not i32(t[0]):
                if re.match(r'^[+-]?[0-9]', t[0]) and not INT.match(t[0]):
                    return UNSURE
                return BAD
            final = int(t[0])
            if final < 0:
                return BAD
            continue
        a = fields(line, aux, rag)
        if a is BAD:
            return BAD
        if a is UNSURE:
            unsure = True
            continue
        arcs.append(a)
    if unsure:
        return UNSURE
    if final is None:
        return BAD if arcs else (0, [])
    if any(max(a[0], a[1]) > final for a in arcs):
        return BAD
    n = final + 1
    if not valid_arcs(n, [a[:3] for a in arcs]):
        # arcs that leave the final state are let through
        if any(a[0] == final for a in arcs):
            return UNSURE
        return BAD
    if n == 1:
        return UNSURE if not arcs else BAD
    return n, arcs


def ref_open(text, aux, rag):
    arcs, finals, seen = [], {}, []
    unsure = False
    for line in text.split('\n'):
        if any(ord(ch) > 126 or ord(ch) < 32 for ch in line):
            return UNSURE
        t = line.split()
        if not t:
            continue
        if len(t) <= 2:
            if not i32(t[0]) or (len(t) == 2 and not NUM.match(t[1])):
                if INT.match(t[0]) and len(t) == 2 and re.match(r'^[+-]?([0-9.]|inf|nan)', t[1], re.I):
                    return UNSURE
                if not re.match(r'^[+-]?[0-9]', t[0]) or INT.match(t[0]):
                    return BAD
                return UNSURE
            if int(t[0]) < 0:
                return BAD
            unsure |= int(t[0]) in finals
            finals[int(t[0])] = float(t[1]) if len(t) == 2 else 0.0
            seen.append(int(t[0]))
            continue
        a = fields(line, aux, rag)
        if a is BAD:
            return BAD
        if a is UNSURE:
            unsure = True
            continue
        if a[0] < 0 or a[1] < 0:
            return BAD
        arcs.append(a)
        seen += [a[0], a[1]]
    return UNSURE if unsure or not seen else (arcs, finals, seen)


def run_text(c):
    text = mutate(render(c), c['muts'])
    aux, rag = c['aux'], c['rag']
    if any(int(v) > 5000 for v in re.findall(r'[0-9]+', text) if len(v) < 11) and not c.get('big'):
        if any(len(v) > 3 and len(v) < 11 for v in re.findall(r'[0-9]+', text)):
            return False, ['large number']    # memory is used for every state below
    names = [f'a{i}' for i in range(aux)]
    rnames = [f'r{i}' for i in range(rag)]
    kw = dict(aux_label_names=names, ragged_label_names=rnames)
    if c['openfst']:
        want = ref_open(text, aux, rag)
        f, e = attempt(lambda: k2.Fsa.from_openfst(text, **kw))
    else:
        want = ref_k2(text, aux, rag)
        f, e = attempt(lambda: k2.Fsa.from_str(text, **kw))
    alive()
    kind = 'openfst' if c['openfst'] else 'k2'
    if want is BAD:
        check(e is not None, 'accepted', repr(text), 'as', f)
        return True, [kind, 'refused']
    if f is not None:
        sound(f, repr(text), c)
        for q in names:
            check_eq(len(getattr(f, q)), f.num_arcs, 'attribute', q, repr(text))
        for q in rnames:
            check_eq(getattr(f, q).dim0, f.num_arcs, 'attribute', q, repr(text))
    if want is UNSURE:
        return e is None and bool(c['muts']), [kind, 'lenient' if e is None else 'refused']
    if c['openfst']:
        # F01 decides what an OpenFst text stands for
        return bool(c['muts']), [kind, 'valid' if e is None else 'error']
    check(e is None, 'refused', repr(text), e)
    n, arcs = want
    (m, got), = F.rd(f)
    check_eq((m if arcs else n, [tuple(a[:3]) for a in got]), (n, [a[:3] for a in arcs]), 'arcs of', repr(text))
    check_all_close(f.scores.tolist(), [a[5] for a in arcs], 'scores of', repr(text))
    for i, q in enumerate(names):
        check_eq(getattr(f, q).tolist(), [a[3][i] for a in arcs], 'aux labels of', repr(text))
    for i, q in enumerate(rnames):
        check_eq(getattr(f, q).tolist(), [a[4][i] for a in arcs], 'ragged labels of', repr(text))
    return bool(c['muts']), [kind, 'valid']


# ------------------------------------------------------------------ FSA tensors and dicts
def tensor_case():
    return st.fixed_dictionaries({'fs': gen.fsa_vec(min_size=1, max_states=5, acyclic=False), 'vec': st.booleans(), 'muts': st.lists(st.tuples(st.sampled_from(['set', 'set', 'cut', 'row', 'swap', 'float', 'dims', 'add']), st.integers(0, 999),
                                  st.sampled_from([-1, 0, 1, 2, 3, 9, -2, 2**31 - 1, -2**31, 10**6])), max_size=3), 'how': st.sampled_from(['Fsa', 'from_dict', 'raw'])})


def ref_tensor1(rows):
    """States and arcs of a 2-D tensor."""
    fin = {d for s, d, l, _ in rows if l == -1}
    if len(fin) != 1:
        return BAD
    n = fin.pop() + 1
    if n < 2 or not valid_arcs(n, [a[:3] for a in rows]):
        return UNSURE if any(a[0] == n - 1 for a in rows) and all(a[0] < n for a in rows) else BAD
    return [(n, rows)]


def ref_tensor_vec(v):
    if len(v) < 4:
        return BAD
    k = v[0]
    if k < 0 or k > len(v) or v[1] != 0:
        return BAD if v[1] == 0 or k < 0 or k > len(v) else UNSURE
    start = 2 + 2 * (k + 1)
    if len(v) < start or (len(v) - start) % 4:
        return BAD
    a, b = v[2:2 + k + 1], v[3 + k:start]
    rows = [v[i:i + 4] for i in range(start, len(v), 4)]
    for q, end in ((a, None), (b, len(rows))):
        if q[0] != 0 or any(x > y for x, y in zip(q, q[1:])) or (end is not None and q[-1] != end):
            return BAD
    if a[-1] > 10000:
        return UNSURE
    out = []
    for i in range(k):
        n, mine = a[i + 1] - a[i], rows[b[i]:b[i + 1]]
        if n == 1 or (n == 0 and mine):
            return BAD
        if n and not valid_arcs(n, [x[:3] for x in mine]):
            if any(x[0] == n - 1 for x in mine) and all(x[0] < n for x in mine):
                return UNSURE
            return BAD
        out.append((n, mine))
    return out


def run_tensor(c):
    if c['vec']:
        f = F.mk_vec(c['fs'])
    else:
        f = F.mk(c['fs'][0])
    t = _k2.fsa_to_tensor(f.arcs)
    dtype = torch.int32
    shape = list(t.shape)
    v = t.reshape(-1).tolist()
    for kind, a, x in c['muts']:
        if kind == 'set' and v:
            v[a % len(v)] = x
        elif kind == 'cut':
            v = v[:a % (len(v) + 1)]
        elif kind == 'row' and len(v) >= 4:
            p = a % (len(v) // 4) * 4
            v = v[:p] + v[p + 4:]
        elif kind == 'swap' and len(v) >= 8:
            p = a % (len(v) // 4 - 1) * 4
            v[p:p + 8] = v[p + 4:p + 8] + v[p:p + 4]
        elif kind == 'float':
            dtype = [torch.float32, torch.int64, torch.float64][a % 3]
        elif kind == 'add':
            v.append(x)
        elif kind == 'dims':
            shape = [[len(v), 1], [1, len(v)], [len(v)], [1, 1, len(v)]][a % 4]
    if c['vec']:
        t = torch.tensor(v, dtype=dtype)
        want = ref_tensor_vec(v)
        if 'dims' in [m[0] for m in c['muts']]:
            t = t.reshape([-1, 4] if len(v) % 4 == 0 else [1, -1])
            want = BAD if len(v) % 4 else ref_tensor1([v[i:i + 4] for i in range(0, len(v), 4)]) if v else BAD
    else:
        if len(v) % 4 == 0:
            t = torch.tensor(v, dtype=dtype).reshape(-1, 4)
            want = ref_tensor1([v[i:i + 4] for i in range(0, len(v), 4)])
        else:
            t = torch.tensor(v, dtype=dtype).reshape(1, -1)
            want = BAD
        if 'dims' in [m[0] for m in c['muts']]:
            t = t.reshape(1, 1, -1)
            want = BAD
    if dtype != torch.int32:
        want = BAD
    if t.dim() == 2 and t.shape[1] == 4 and t.dtype == torch.int32 and any(x[1] > 10**5 and x[2] == -1 for x in t.tolist()):
        return False, ['large number']
    if c['how'] == 'Fsa':
        f, e = attempt(lambda: k2.Fsa(t))
    elif c['how'] == 'from_dict':
        f, e = attempt(lambda: k2.Fsa.from_dict({'arcs': t}))
    else:
        f, e = attempt(lambda: _k2.fsa_from_tensor(t))
        if f is not None:
            f, e = attempt(lambda: k2.Fsa(f))
    alive()
    if want is BAD:
        check(e is not None, 'accepted', t.tolist(), c)
        return True, ['refused']
    if f is not None:
        sound(f, t.tolist())
    if want is UNSURE:
        return True, ['lenient' if e is None else 'refused']
    check(e is None, 'refused', t.tolist(), e)
    check_eq([(n, [list(a[:3]) for a in arcs]) for n, arcs in F.rd(f)], [(n, [a[:3] for a in arcs]) for n, arcs in want], 'arcs', t.tolist())
    return bool(c['muts']), ['valid']


# ------------------------------------------------------------------ ragged text
def nest(depth):
    leaf = st.lists(st.integers(-9, 99), max_size=3)
    for _ in range(depth - 2):
        leaf = st.lists(leaf, max_size=3)
    return st.lists(leaf, max_size=3)


def rtext_case():
    base = st.integers(2, 4).flatmap(nest)
    return st.fixed_dictionaries({'v': base, 'muts': st.lists(st.tuples(st.sampled_from(['ins', 'del', 'rep', 'dup', 'cut']), st.integers(0, 999), st.sampled_from(
        ['[', ']', '1', '-2', ',', ' ', '1.5', 'x', '.', '-', '1e2', '99999999999', '[]', '][', ' inf', '\n', '\x00'])), max_size=3), 'dtype': st.sampled_from(['none', 'i', 'f', 'd']), 'shape': st.booleans()})


def show(v, x=False):
    return '[' + ' '.join(show(i, x) if isinstance(i, list) else ('x' if x else str(i)) for i in v) + ']'


def ref_nested(text, integer):
    """Nested lists of a ragged text, BAD or UNSURE."""
    if any(ord(ch) > 126 or (ord(ch) < 32 and ch not in '\n\t') for ch in text):
        return UNSURE
    toks = re.findall(r'[\[\]]|[^\[\]\s,]+', text)
    unsure = ',' in text
    root, stack = None, []
    for t in toks:
        if root is not None and not stack:
            return BAD       # after the end
        if t == '[':
            n = []
            if stack:
                stack[-1].append(n)
            else:
                root = n
            stack.append(n)
        elif t == ']':
            if not stack:
                return BAD
            stack.pop()
        else:
            if not stack:
                return BAD
            if INT.match(t) if integer else NUM.match(t):
                if integer and not i32(t):
                    return BAD
                stack[-1].append(int(t) if integer else float(t))
            elif re.match(r'^[+-]?([0-9.]|inf|nan)', t, re.I):
                return UNSURE if not integer or not NUM.match(t) else BAD
            else:
                return BAD
    if root is None or stack:
        return BAD
    if not integer and any(huge(t) for t in toks if NUM.match(t)):
        return UNSURE
    d = nesting(root)
    if d is BAD:
        return BAD
    if unsure:
        return UNSURE if text.rstrip().endswith(',') or text.lstrip().startswith(',') else root
    return root


def nesting(v):
    """Depth of nested lists whose values all have the same depth, which no list goes beyond."""
    deep, vals = [1], set()

    def walk(x, d):
        deep[0] = max(deep[0], d)
        for i in x:
            if isinstance(i, list):
                walk(i, d + 1)
            else:
                vals.add(d)
    walk(v, 1)
    if len(vals) > 1 or (vals and (vals != {deep[0]} or deep[0] < 2)):
        return BAD
    return max(deep[0], 2)


def run_rtext(c):
    text = show(c['v'], c['shape'])
    for kind, a, t in c['muts']:
        p = a % (len(text) + 1)
        if c['shape'] and t in ('1', '-2'):
            t = 'x'
        if kind == 'ins':
            text = text[:p] + t + text[p:]
        elif kind == 'del':
            text = text[:p] + text[p + 1:]
        elif kind == 'rep':
            text = text[:p] + t + text[p + 1:]
        elif kind == 'dup':
            text = text[:p] + text[max(0, p - 2):]
        else:
            text = text[:p]
    if c['shape']:
        if re.search(r'[^\[\]x\s]', text):
            want = BAD
        else:
            want = ref_nested(re.sub('x', ' 0 ', text), True)
        s, e = attempt(lambda: k2.RaggedShape(text))
        alive()
        if want is BAD:
            check(e is not None, 'accepted', repr(text), s)
            return True, ['shape', 'refused']
        if want is UNSURE:
            return False, ['shape', 'lenient']
        check(e is None, 'refused', repr(text), e)
        back = k2.RaggedShape(str(s))
        check_eq([back.row_splits(i).tolist() for i in range(1, back.num_axes)][:1], [s.row_splits(i).tolist() for i in range(1, s.num_axes)][:1], 'printed', repr(text), str(s))
        got = k2.RaggedTensor(s, torch.zeros(s.tot_size(s.num_axes - 1), dtype=torch.int32)).tolist()
        check_eq((got, s.num_axes), (want, nesting(want)), 'shape of', repr(text))
        return bool(c['muts']), ['shape', 'valid']
    dt = {'none': None, 'i': torch.int32, 'f': torch.float32, 'd': torch.float64}[c['dtype']]
    x, e = attempt(lambda: k2.RaggedTensor(text, dtype=dt) if dt else k2.RaggedTensor(text))
    alive()
    if dt is None:
        want = ref_nested(text, True)
        if want is BAD:
            want = ref_nested(text, False)
            real = True
        else:
            real = False
    else:
        real = dt != torch.int32
        want = ref_nested(text, not real)
    if want is BAD:
        check(e is not None, 'accepted', repr(text), x)
        return True, ['values', 'refused']
    if x is not None:
        y = k2.RaggedTensor(str(x.tolist()).replace(',', ' ').replace('inf', ' inf '), dtype=x.dtype)
        check_eq((y.tolist(), y.shape.num_axes) if nesting(x.tolist()) == x.num_axes else None, (x.tolist(), x.num_axes) if nesting(x.tolist()) == x.num_axes else None, 'read back', repr(text))
    if want is UNSURE:
        return False, ['values', 'lenient' if e is None else 'refused']
    check(e is None, 'refused', repr(text), e)
    check_eq(str(x.dtype), str(dt or (torch.float32 if real else torch.int32)), 'type of', repr(text))
    flat(x.tolist(), want, repr(text), x.dtype)
    check_eq(x.num_axes, nesting(want), 'axes of', repr(text))
    return bool(c['muts']), ['values', 'valid']


def flat(got, want, what, dtype):
    if isinstance(want, list):
        check(isinstance(got, list) and len(got) == len(want), 'structure of', what, got, want)
        for a, b in zip(got, want):
            flat(a, b, what, dtype)
    else:
        check(not isinstance(got, list), 'structure of', what)
        check_close(got, float(torch.tensor(float(want), dtype=dtype)) if dtype != torch.int32 else want, 'value in', what, rtol=1e-6, atol=1e-6)


# ------------------------------------------------------------------ Python lists
ITEM = st.one_of(st.integers(-9, 9), st.sampled_from([2**31 - 1, 2**31, -2**31 - 1, 2**70, 1.5, -0.25, True, None, 'a', '1', 'tuple', 'nan']))


def list_case():
    t = st.recursive(ITEM, lambda s: st.lists(s, max_size=3), max_leaves=8)
    return st.fixed_dictionaries({'v': st.one_of(st.lists(t, max_size=4), st.integers(2, 4).flatmap(nest), st.integers(2, 4).flatmap(nest)), 'dtype': st.sampled_from(['none', 'i', 'f', 'd']),
                                  'put': st.one_of(st.none(), st.tuples(st.integers(0, 99), st.one_of(ITEM, st.just([]), st.just([[]]), st.just([1]))))})


def run_list(c):
    v = pickle.loads(pickle.dumps(c['v']))
    if c['put']:
        spots = []

        def walk(x):
            spots.append(x)
            for i in x:
                if isinstance(i, list):
                    walk(i)
        walk(v)
        x = spots[c['put'][0] % len(spots)]
        x.insert(c['put'][0] // 7 % (len(x) + 1), c['put'][1])

    def real(x):
        return [real(i) for i in x] if isinstance(x, list) else {'tuple': (1, 2), 'nan': float('nan')}.get(x, x) if isinstance(x, str) else x
    v = real(v)
    leaves = []

    def walk2(x):
        for i in x:
            walk2(i) if isinstance(i, list) else leaves.append(i)
    walk2(v)
    dt = {'none': None, 'i': torch.int32, 'f': torch.float32, 'd': torch.float64}[c['dtype']]
    x, e = attempt(lambda: k2.RaggedTensor(v, dtype=dt) if dt else k2.RaggedTensor(v))
    alive()
    ok = nesting(v) is not BAD and all(isinstance(i, (int, float)) for i in leaves)
    ints = all(isinstance(i, int) and -2**31 <= i < 2**31 for i in leaves)
    if dt == torch.int32:
        ok = ok and ints
    if not ok or any(isinstance(i, int) and abs(i) > 2**63 for i in leaves):
        if ok:
            return False, ['large number']
        check(e is not None, 'accepted', v, x)
        return True, ['refused']
    check(e is None, 'refused', v, e)
    dt = dt or (torch.int32 if ints else torch.float32)
    check_eq(str(x.dtype), str(dt), 'type of', v)
    flat(x.tolist(), v, v, dt)
    check_eq(x.num_axes, nesting(v), 'axes of', v)
    return bool(c['put']), ['valid']


# ------------------------------------------------------------------ shapes and arguments
def shape_case():
    return st.fixed_dictionaries({'splits': st.one_of(st.none(), st.lists(st.integers(-1, 6), max_size=5), st.lists(st.integers(0, 6), max_size=5).map(lambda v: [0] + sorted(v))),
                                  'ids': st.one_of(st.none(), st.lists(st.integers(-1, 5), max_size=6), st.just('good'), st.just('good')), 'size': st.sampled_from([-1, -1, 'good', 0, 3, 7]),
                                  'values': st.integers(0, 7), 'dtype': st.sampled_from(['i', 'i', 'i', 'l', 'f']), 'two': st.lists(st.integers(0, 3), max_size=4)})


def run_shape(c):
    sp, ids, size = c['splits'], c['ids'], c['size']
    good = sp is not None and len(sp) >= 1 and sp[0] == 0 and all(a <= b for a, b in zip(sp, sp[1:]))
    if ids == 'good':
        ids = [i for i, (a, b) in enumerate(zip(sp, sp[1:])) for _ in range(b - a)] if good else None
    if size == 'good':
        size = sp[-1] if good else len(ids) if ids is not None else -1
    ok = sp is not None or ids is not None
    if sp is not None:
        ok = ok and good
    if ids is not None:
        ok = ok and all(a <= b for a, b in zip(ids, ids[1:])) and all(i >= 0 for i in ids)
        if ok and sp is not None:
            ok = ids == [i for i, (a, b) in enumerate(zip(sp, sp[1:])) for _ in range(b - a)]
    tot = len(ids) if ids is not None else sp[-1] if ok else 0
    if size != -1:
        ok = ok and size == tot
    dt = {'i': torch.int32, 'l': torch.int64, 'f': torch.float32}[c['dtype']]
    if not ok and (sp is not None or ids is not None) and not (ids is not None and size not in (-1, len(ids))) and c['dtype'] == 'i':
        return False, ['unchecked']    # the contents are only checked in debug builds
    if c['dtype'] != 'i':
        ok = False
    s, e = attempt(lambda: k2.ragged.create_ragged_shape2(row_splits=None if sp is None else torch.tensor(sp, dtype=dt), row_ids=None if ids is None else torch.tensor(ids, dtype=dt), cached_tot_size=size))
    alive()
    what = (sp, ids, size, c['dtype'])
    if not ok:
        check(e is not None, 'accepted', *what, s)
        return True, ['refused']
    check(e is None, 'refused', *what, e)
    want = sp if sp is not None else [sum(i < k for i in ids) for k in range((ids[-1] + 1 if ids else 0) + 1)]
    check_eq(s.row_splits(1).tolist(), want, 'splits', *what)
    check_eq(s.row_ids(1).tolist(), [i for i, (a, b) in enumerate(zip(want, want[1:])) for _ in range(b - a)], 'ids', *what)
    check_eq((s.dim0, s.numel()), (len(want) - 1, tot), 'size', *what)
    x, e = attempt(lambda: k2.RaggedTensor(s, torch.arange(c['values'], dtype=torch.int32)))
    check((e is None) == (c['values'] == tot), 'values', c['values'], *what)
    raises(lambda: k2.RaggedTensor(s, torch.zeros(tot, dtype=torch.int64)), 'int64 values', *what)
    raises(lambda: k2.RaggedTensor(s, torch.zeros(tot, 1, dtype=torch.int32)), '2-D values', *what) if tot != 1 else None
    t = k2.RaggedShape(show([[0] * k for k in c['two']], True)) if c['two'] else k2.RaggedShape('[]')
    y, e = attempt(lambda: s.compose(t))
    check((e is None) == (tot == len(c['two'])), 'composed', c['two'], *what)
    return True, ['valid']


def arg_case():
    return st.fixed_dictionaries({'depth': st.integers(2, 4), 'seed': st.integers(0, 10**6), 'op': st.sampled_from(sorted(RAGGED_ARGS)), 'a': st.integers(-6, 6), 'b': st.integers(-6, 8), 'c': st.integers(-6, 8)})


def rag(r, depth):
    if depth == 1:
        return [r.randint(0, 9) for _ in range(r.randint(0, 3))]
    return [rag(r, depth - 1) for _ in range(r.randint(1, 3))]


def tot(x, axis):
    return x.shape.tot_size(axis)


# name -> (call, is it valid)
RAGGED_ARGS = {
    'tot_size': (lambda x, c: x.tot_size(c['a']), lambda x, c: 0 <= c['a'] < x.num_axes),
    'shape.tot_size': (lambda x, c: x.shape.tot_size(c['a']), lambda x, c: 0 <= c['a'] < x.num_axes),
    'row_splits': (lambda x, c: x.shape.row_splits(c['a']), lambda x, c: 0 < c['a'] < x.num_axes),
    'row_ids': (lambda x, c: x.shape.row_ids(c['a']), lambda x, c: 0 < c['a'] < x.num_axes),
    'max_size': (lambda x, c: x.shape.max_size(c['a']), lambda x, c: 0 < c['a'] < x.num_axes),
    'remove_axis': (lambda x, c: x.remove_axis(c['a']), lambda x, c: x.num_axes > 2 and 0 <= c['a'] < x.num_axes - 1),
    'shape.remove_axis': (lambda x, c: x.shape.remove_axis(c['a']), lambda x, c: x.num_axes > 2 and 0 <= c['a'] < x.num_axes),
    'index': (lambda x, c: x[c['a']], lambda x, c: 0 <= c['a'] < x.dim0),
    'arange': (lambda x, c: x.arange(c['a'], c['b'], c['c']), None),
    'get_layer': (lambda x, c: x.shape.get_layer(c['a']), lambda x, c: 0 <= c['a'] < x.num_axes - 1),
    'cat': (lambda x, c: _k2.ragged.cat([x, x], c['a']), lambda x, c: 0 <= c['a'] < 2),
    'pad': (lambda x, c: x.pad(['constant', 'replicate', 'other'][c['a'] % 3], 0), lambda x, c: c['a'] % 3 < 2 and x.num_axes == 2),
    'to': (lambda x, c: x.to([torch.float32, torch.int32, torch.float64, torch.int64, torch.bool, torch.float16][c['a'] % 6]), lambda x, c: c['a'] % 6 < 3),
    'index2': (lambda x, c: x.index(torch.tensor([0] * (0 <= c['a'] < x.num_axes and x.tot_size(c['a']) > 0), dtype=torch.int32), c['a']), lambda x, c: 0 <= c['a'] < x.num_axes),
    'index i64': (lambda x, c: x.index(torch.tensor([0]), 0), lambda x, c: False),
    'index 2-D': (lambda x, c: x.index(torch.zeros((1, 1), dtype=torch.int32), 0), lambda x, c: False),
    'unique': (lambda x, c: x.unique(), lambda x, c: True),
}


def run_arg(c):
    r = random.Random(c['seed'])
    v = rag(r, c['depth'])
    x = R.mk(v, c['depth'], 'i')
    call, valid = RAGGED_ARGS[c['op']]
    y, e = attempt(lambda: call(x, c))
    alive()
    check_eq(x.tolist(), v, 'the argument afterwards', c)
    if valid is None:
        return e is not None, [c['op'], 'free']
    ok = valid(x, c)
    check(ok == (e is None), 'accepted' if e is None else f'refused: {e}', x, c, y if e is None else '')
    return True, [c['op'], 'valid' if ok else 'refused']


# ------------------------------------------------------------------ arguments of FSA functions
def fsaarg_case():
    return st.fixed_dictionaries({'fs': gen.fsa_vec(min_size=2, max_size=3, max_states=5, min_states=3), 'op': st.sampled_from(sorted(FSA_ARGS)), 'a': st.integers(-5, 8), 'b': st.integers(-3, 8), 'c': st.integers(-3, 8), 'x': st.integers(0, 99)})


def i32t(*v):
    return torch.tensor(v, dtype=torch.int32)


TYPES = [torch.int32, torch.float32, torch.int64, torch.float64, torch.int16, torch.bool]


def put(x, name, value):
    setattr(x, name, value)
    return getattr(x, name)


def dense(c, **kw):
    x = torch.zeros(2, 4, 3, dtype=kw.get('dtype', torch.float32))
    return k2.DenseFsaVec(x, torch.tensor([[c['a'], c['b'], c['c']]], dtype=kw.get('seg', torch.int32))[:, :kw.get('cols', 3)])


def one_member(v, c):
    """A function that needs an FsaVec, called with one FSA."""
    fn = [lambda f: k2.shortest_path(f, False), k2.union, lambda f: f.get_tot_scores(False, False), lambda f: f.get_forward_scores(False, True), lambda f: k2.random_paths(f, True, 2),
          lambda f: f.get_arc_post(False, True), lambda f: f.get_tot_scores(True, True), lambda f: k2.intersect_device(f, v, i32t(0)), lambda f: k2.replace_fsa(f, v, 1)]
    return fn[c['x'] % len(fn)](v[0])


# name -> (call on the FsaVec, is it valid)
FSA_ARGS = {
    'member': (lambda v, c: v[c['a']], lambda v, c: 0 <= c['a'] < v.shape[0]),
    'member of single': (lambda v, c: v[0][0], lambda v, c: False),
    'labels dtype': (lambda v, c: put(v, 'labels', v.labels.to(TYPES[c['x'] % 6])), lambda v, c: c['x'] % 6 == 0),
    'labels size': (lambda v, c: put(v, 'labels', torch.zeros(max(0, v.num_arcs + c['a']), dtype=torch.int32)), lambda v, c: None if max(0, v.num_arcs + c['a']) == v.num_arcs else False),
    'labels 2-D': (lambda v, c: put(v, 'labels', v.labels.reshape(-1, 1)), lambda v, c: None if v.num_arcs < 2 else False),
    'scores dtype': (lambda v, c: put(v, 'scores', v.scores.to(TYPES[c['x'] % 6])), lambda v, c: c['x'] % 6 == 1),
    'scores size': (lambda v, c: put(v, 'scores', torch.zeros(max(0, v.num_arcs + c['a']))), lambda v, c: max(0, v.num_arcs + c['a']) == v.num_arcs),
    'scores 2-D': (lambda v, c: put(v, 'scores', v.scores.reshape(-1, 1)), lambda v, c: None if v.num_arcs < 2 else False),
    'attribute size': (lambda v, c: put(v, 'x', torch.zeros(max(0, v.num_arcs + c['a']))), lambda v, c: max(0, v.num_arcs + c['a']) == v.num_arcs),
    'ragged attribute size': (lambda v, c: put(v, 'x', k2.RaggedTensor([[1]] * max(1, v.num_arcs + c['a']))), lambda v, c: max(1, v.num_arcs + c['a']) == v.num_arcs),
    'arcs': (lambda v, c: put(v, 'arcs', v.arcs), lambda v, c: False),
    'missing attribute': (lambda v, c: v.no_such_name, lambda v, c: False),
    'delete missing': (lambda v, c: v.__delattr__('no_such_name'), lambda v, c: False),
    'rename missing': (lambda v, c: v.rename_tensor_attribute_('no_such_name', 'z'), lambda v, c: False),
    'ragged missing': (lambda v, c: k2.convert_attr_to_ragged_(v, 'no_such_name'), lambda v, c: False),
    'vec of vecs': (lambda v, c: k2.create_fsa_vec([[v], [v[0], v], [v, v[1]]][c['x'] % 3]), lambda v, c: False),
    'vec of nothing': (lambda v, c: k2.create_fsa_vec([]), lambda v, c: False),
    'one member': (one_member, lambda v, c: False),
    'closure of vec': (lambda v, c: k2.closure(v), lambda v, c: False),
    'random paths': (lambda v, c: k2.random_paths(v, True, c['a']), lambda v, c: None if c['a'] > 0 else False),
    'prune': (lambda v, c: k2.prune_on_arc_post(v, c['a'] / 4, True), lambda v, c: None if 0 < c['a'] < 4 else False),
    'host intersect sizes': (lambda v, c: k2.intersect(k2.arc_sort(v), k2.create_fsa_vec([v[0]] * (v.shape[0] + 1 + c['x'] % 2)), treat_epsilons_specially=False), lambda v, c: False),
    'device map size': (lambda v, c: k2.intersect_device(v, v, i32t(*[0] * max(0, v.shape[0] + c['a']))), lambda v, c: None if v.shape[0] + max(-v.shape[0], c['a']) == v.shape[0] else False),
    'device map value': (lambda v, c: k2.intersect_device(v, v, i32t(*[min(c['x'] % 7, v.shape[0] + 3)] * v.shape[0])), lambda v, c: None if c['x'] % 7 < v.shape[0] else False),
    'device map dtype': (lambda v, c: k2.intersect_device(v, v, torch.zeros(v.shape[0], dtype=TYPES[c['x'] % 6])), lambda v, c: None if c['x'] % 6 == 0 else False),
    'compose without aux': (lambda v, c: k2.compose(v[0], v[1]), lambda v, c: False),
    'dense': (lambda v, c: dense(c), lambda v, c: c['a'] in (0, 1) and c['b'] >= 0 and c['c'] >= 0 and c['b'] + c['c'] <= 4 if c['b'] + c['c'] <= 4 and c['c'] > 0 else None if c['c'] == 0 else False),
    'dense dtype': (lambda v, c: dense({'a': 0, 'b': 0, 'c': 2}, dtype=TYPES[c['x'] % 6]), lambda v, c: c['x'] % 6 == 1),
    'dense segment dtype': (lambda v, c: dense({'a': 0, 'b': 0, 'c': 1}, seg=TYPES[c['x'] % 6]), lambda v, c: c['x'] % 6 == 0),
    'dense columns': (lambda v, c: dense({'a': 0, 'b': 0, 'c': 2}, cols=1 + c['x'] % 3), lambda v, c: c['x'] % 3 == 2),
    'linear label': (lambda v, c: k2.linear_fsa([1, c['a'], 2]), lambda v, c: c['a'] >= 0),
    'linear type': (lambda v, c: k2.linear_fsa([[1.5], 'ab', [[1], 2], [None], 3.5][c['x'] % 5]), lambda v, c: False),
    'linear fst sizes': (lambda v, c: k2.linear_fst([1] * max(0, c['b']), [2] * max(0, c['c'])), lambda v, c: max(0, c['b']) == max(0, c['c'])),
    'graph of flat list': (lambda v, c: [k2.ctc_graph, k2.levenshtein_graph][c['x'] % 2]([1, 2]), lambda v, c: False),
    'index select dtype': (lambda v, c: k2.index_select(torch.zeros(3), torch.zeros(2, dtype=TYPES[c['x'] % 6])), lambda v, c: c['x'] % 6 == 0),
    'index select 2-D index': (lambda v, c: k2.index_select(torch.zeros(3), i32t(0).reshape(1, 1)), lambda v, c: False),
    'index add size': (lambda v, c: k2.index_add(i32t(*[0] * max(0, c['b'])), torch.ones(max(0, c['c'])), torch.zeros(3)), lambda v, c: max(0, c['b']) == max(0, c['c'])),
    'index add dtype': (lambda v, c: k2.index_add(i32t(0), torch.ones(1), torch.zeros(3, dtype=TYPES[c['x'] % 6])), lambda v, c: c['x'] % 6 == 1),
    'index fsa dtype': (lambda v, c: k2.index_fsa(v, torch.zeros(2, dtype=TYPES[c['x'] % 6])), lambda v, c: None if c['x'] % 6 == 0 else False),
    'not an FSA': (lambda v, c: [k2.connect, k2.arc_sort, k2.top_sort, k2.remove_epsilon, k2.determinize, k2.add_epsilon_self_loops, k2.invert, k2.expand_ragged_attributes, k2.Fsa.from_fsas][c['x'] % 9](3), lambda v, c: False),
    'Fsa of': (lambda v, c: k2.Fsa([None, [[0, 1, -1, 0]], 3, 'x', v.scores, v.labels.long().reshape(-1, 1)][c['x'] % 6]), lambda v, c: False),
    'dict without arcs': (lambda v, c: k2.Fsa.from_dict({'scores': v.scores}), lambda v, c: False),
}


def state(v):
    return (v.arcs.values().tolist(), v.arcs.shape().row_splits(1).tolist(), v.arcs.shape().row_splits(2).tolist(), v.tag.tolist(), v.words.tolist(), v.properties)


def run_fsaarg(c):
    v = F.mk_vec(c['fs'])
    v.tag = torch.arange(v.num_arcs, dtype=torch.float32)
    v.words = k2.RaggedTensor([[i] * (i % 2 + 1) for i in range(v.num_arcs)]) if v.num_arcs else k2.RaggedTensor('[]')
    v.properties
    before = state(v)
    call, valid = FSA_ARGS[c['op']]
    ok = valid(v, c)
    y, e = attempt(lambda: call(v, c))
    alive()
    if ok is None:
        return False, [c['op'], 'free']
    check(ok == (e is None), 'accepted' if e is None else f'refused: {e}', c['op'], c, y if e is None else '')
    if e is not None:
        check_eq(state(v), before, 'the argument after the error', c['op'])
        check('x' not in v.__dict__.get('_tensor_attr', {}), 'attribute kept', c)
    return True, [c['op'], 'valid' if ok else 'refused']


SUBS = [Sub('text', text_case, run_text, 6000), Sub('tensor', tensor_case, run_tensor, 4000), Sub('rtext', rtext_case, run_rtext, 6000), Sub('list', list_case, run_list, 5000),
        Sub('shape', shape_case, run_shape, 3000), Sub('arg', arg_case, run_arg, 3000), Sub('fsaarg', fsaarg_case, run_fsaarg, 3000)]
