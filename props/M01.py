"""M01: symbol tables as a bijection under histories of operations."""
import json
import os
import subprocess
import sys
import tempfile

import k2
from hypothesis import strategies as st

from vlib.core import Sub, check, check_eq

TECHNIQUE = 'random histories of additions, merges, lookups and save/load on several symbol tables against a dictionary model'
NOTE = 'The whole table is compared with the model after every step; files are also written under a non-UTF-8 locale.'
RULE = ('tables of string (any non-space Unicode) or tuple symbols, default or custom epsilon, ids up to 2^31, conflicts likely. '
        'Non-trivial: 2 or more symbols besides epsilon, and an operation other than a plain addition.')

EPS = '<eps>'
COMMON = ['a', 'b', 'c', 'd', '<eps>', '<blk>', '#0', '0', '3', '-1', 'ab']


def sym():
    return st.one_of(
        st.sampled_from(COMMON), st.sampled_from(COMMON),
        st.text(st.characters(exclude_categories=('Cs',)), min_size=1, max_size=4).map(
            lambda s: ''.join(c for c in s if not c.isspace()) or 'z'))


def idx():
    return st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(-2, 12), st.sampled_from([1000, 2**31 - 1, 2**31, 2**40]))


@st.composite
def rows(draw):
    if draw(st.booleans()):
        syms = draw(st.lists(sym(), max_size=5))
        ids = draw(st.lists(idx(), min_size=len(syms), max_size=len(syms)))
    else:
        syms = draw(st.lists(sym(), max_size=5, unique=True))
        ids = draw(st.lists(st.integers(0, 8), min_size=len(syms), max_size=len(syms), unique=True))
    return [[s, i] for s, i in zip(syms, ids)]


@st.composite
def history(draw):
    tup = draw(st.integers(0, 4)) == 0
    n = draw(st.integers(2, 12))
    eps = draw(st.sampled_from([None, None, None, '<blk>', 'e']))
    ops = [['new', eps]]
    for _ in range(n):
        kind = draw(st.sampled_from(['add', 'add', 'add', 'add', 'addi', 'addi', 'merge', 'merge', 'save', 'saves', 'new', 'text', 'build', 'look', 'copy']))
        t = draw(st.integers(0, 3))
        if kind == 'add':
            ops.append(['add', t, draw(sym()), None])
        elif kind == 'addi':
            ops.append(['add', t, draw(sym()), draw(idx())])
        elif kind == 'merge':
            ops.append(['merge', t, draw(st.integers(0, 3))])
        elif kind == 'new':
            ops.append(['new', draw(st.sampled_from([None, eps]))])
        elif kind in ('text', 'build'):
            r = draw(rows())
            if kind == 'text':
                seps = [draw(st.sampled_from([' ', '\t', '  \t'])) for _ in r]
                ops.append(['text', r, seps, draw(st.sampled_from(['', '\n', '\n\n', '  \n'])), draw(st.booleans())])
            else:
                ops.append(['build', r, draw(st.sampled_from([None, eps]))])
        elif kind == 'look':
            ops.append(['look', t, draw(sym()), draw(idx())])
        else:
            ops.append([kind, t])
    return dict(tup=tup, ops=ops)


def valid(pairs, eps):
    """The table made of (symbol, id) pairs, or None when they describe none."""
    m = {}
    for s, i in pairs:
        if i < 0 or i in m or s in m.values():
            return None
        m[i] = s
    if 0 in m:
        return m if m[0] == eps else None
    if eps in m.values():
        return None
    m[0] = eps
    return m


def same(t, m, eps, what):
    """t holds exactly the associations of m (id -> symbol)."""
    check_eq(len(t), len(m), 'number of symbols', what)
    check_eq(t.ids, sorted(m), 'ids', what)
    check_eq(t.symbols, sorted(m.values()), 'symbols', what)
    check_eq(t.eps, eps, 'epsilon', what)
    for i, s in m.items():
        check(i in t and s in t, 'not in the table', i, s, what)
        check_eq(t[i], s, 'symbol of id', i, what)
        check_eq(t[s], i, 'id of symbol', s, what)
        check_eq(t.get(i), s, 'get', i, what)
        check_eq(t.get(s), i, 'get', s, what)
    check(0 in t and t[0] == eps and t[eps] == 0, 'epsilon is not 0', what)


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:          # noqa
        return None, e


def run_history(case):
    tup = case['tup']
    wrap = (lambda s: (s, len(s))) if tup else (lambda s: s)
    tabs, done = [], set()

    def put(t, m, eps):
        tabs.append([t, m, eps])
        if len(tabs) > 4:
            tabs.pop(0)

    for op in case['ops']:
        k = op[0]
        what = f'after {op} in {case}'
        if k == 'new':
            e = wrap(op[1] or EPS)
            put(k2.SymbolTable(eps=e), {0: e}, e)
        elif k == 'text':
            if tup:
                continue
            r, seps, tail, lead = op[1:]
            text = ('\n' if lead else '') + ''.join(f'{s}{p}{i}\n' for (s, i), p in zip(r, seps)) + tail
            eps = dict((i, s) for s, i in r).get(0, EPS)
            m = valid(r, eps)
            t, err = attempt(k2.SymbolTable.from_str, text)
            check((err is None) == (m is not None), 'reading', repr(text), 'gave', err, t and t._id2sym, 'but the valid table is', m)
            done.add('text' if m else 'text:refused')
            if m is not None:
                put(t, m, eps)
        elif k == 'build':
            eps = wrap(op[2] or EPS)
            r = [(wrap(s), i) for s, i in op[1]]
            m = valid(r, eps)
            t, err = attempt(k2.SymbolTable, _id2sym={i: s for s, i in r}, _sym2id={s: i for s, i in r}, eps=eps)
            dup = len({i for _, i in r}) < len(r) and len({s for s, _ in r}) < len(r)
            if not dup:                # else the two dictionaries may still be consistent
                check((err is None) == (m is not None), 'building', r, 'gave', err, t and t._id2sym, 'but the valid table is', m)
                done.add('build' if m else 'build:refused')
                if m is not None:
                    put(t, m, eps)
        elif k == 'add':
            e = tabs[op[1] % len(tabs)]
            t, m, _ = e
            s, i = wrap(op[2]), op[3]
            inv = {v: u for u, v in m.items()}
            r, err = attempt(t.add, s, i) if i is not None else attempt(t.add, s)
            if s in inv:
                check(err is None and r == inv[s], 'adding a present symbol gave', r, err, what)
                done.add('add:present')
            elif i is None:
                check(err is None and isinstance(r, int) and r > 0 and r not in m, 'automatic id', r, err, m, what)
                m[r] = s
                done.add('add:auto')
            elif i in m or i < 0:
                check(isinstance(err, ValueError), 'conflicting id', i, 'gave', r, err, m, what)
                done.add('add:conflict')
            else:
                check(err is None and r == i, 'requested id', i, 'gave', r, err, what)
                m[i] = s
                done.add('add:id')
        elif k == 'merge':
            (t, m, e), (u, n, f) = tabs[op[1] % len(tabs)], tabs[op[2] % len(tabs)]
            r, err = attempt(t.merge, u)
            inv = {v: a for a, v in m.items()}
            ok = e == f and all(m.get(a, v) == v for a, v in n.items()) and all(inv.get(v, a) == a for a, v in n.items())
            if ok:
                check(err is None, 'compatible tables not merged', err, m, n)
                put(r, {**m, **n}, e)
                done.add('merge' if m != n else 'merge:self')
            else:
                check(isinstance(err, AssertionError), 'incompatible tables merged', m, n, err, r and r._id2sym)
                done.add('merge:refused')
        elif k in ('save', 'saves', 'copy'):
            t, m, e = tabs[op[1] % len(tabs)]
            if k == 'copy' or tup:
                u = k2.SymbolTable(_id2sym=dict(t._id2sym), _sym2id=dict(t._sym2id), eps=t.eps)
            elif k == 'saves':
                u = k2.SymbolTable.from_str(t.to_str())
                check_eq(u.to_str(), t.to_str(), 'text of the table read back')
            else:
                with tempfile.TemporaryDirectory() as d:
                    t.to_file(d + '/t')
                    u = k2.SymbolTable.from_file(d + '/t')
                    with open(d + '/t', encoding='utf-8', newline='\n') as f:
                        check_eq(f.read(), t.to_str(), 'content of the file')
            check(t == u and u == t, 'not equal to itself after', k, m, u._id2sym)
            put(u, dict(m), e)
            done.add(k)
        elif k == 'look':
            t, m, _ = tabs[op[1] % len(tabs)]
            s, i = wrap(op[2]), op[3]
            check_eq(s in t, s in m.values(), 'in', s, what)
            check_eq(i in t, i in m, 'in', i, what)
            for key, ok in ((s, s in m.values()), (i, i in m)):
                r, err = attempt(t.get, key)
                check(ok == (err is None), 'get', key, 'gave', r, err, what)
            done.add('look')
        for t, m, e in tabs:
            same(t, m, e, what)
        for t, m, e in tabs:
            for u, n, f in tabs:
                check_eq(t == u, m == n, 'equality of', m, n)
                check_eq(t != u, m != n, 'inequality of', m, n)
    big = max(len(m) for _, m, _ in tabs) > 2
    return big and bool(done - {'add:auto', 'add:id'}), sorted(done) + ['tuples' if tup else 'strings']


# ---------------------------------------------------------------- locale

SCRIPT = r'''
import importlib.util, json, sys
spec = importlib.util.spec_from_file_location('symtab', sys.argv[1])
m = importlib.util.module_from_spec(spec)
sys.modules['symtab'] = m
spec.loader.exec_module(m)
t = m.SymbolTable()
for s, i in json.loads(sys.argv[3]):
    t.add(s, i)
t.to_file(sys.argv[2])
u = m.SymbolTable.from_file(sys.argv[2])
print(json.dumps(sorted(u._id2sym.items())))
'''


@st.composite
def locale_case(draw):
    syms = draw(st.lists(st.one_of(sym(), st.text(st.characters(min_codepoint=160, max_codepoint=0x3ff), min_size=1, max_size=3).map(
        lambda s: ''.join(c for c in s if not c.isspace()) or 'z')), min_size=1, max_size=5, unique=True).filter(lambda x: EPS not in x))
    return dict(rows=[[s, i + 1] for i, s in enumerate(syms)], env=draw(st.sampled_from(['C', 'C', 'POSIX', 'C.UTF-8'])))


def run_locale(case):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
    env.update(LC_ALL=case['env'], PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run([sys.executable, '-B', '-S', '-c', SCRIPT, k2.symbol_table.__file__, d + '/t', json.dumps(case['rows'])],
                           env=env, capture_output=True, text=True, errors='replace')
    check_eq(p.returncode, 0, 'saving under', case['env'], case['rows'], p.stderr[-400:])
    check_eq(json.loads(p.stdout), [[0, EPS]] + [[i, s] for s, i in case['rows']], 'table read back under', case['env'])
    wide = any(ord(c) > 127 for s, _ in case['rows'] for c in s)
    return wide and case['env'] != 'C.UTF-8', [case['env']] + (['non-ascii'] if wide else [])


SUBS = [
    Sub('history', history, run_history, 8000),
    Sub('locale', locale_case, run_locale, 240),
]
