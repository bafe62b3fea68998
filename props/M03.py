"""M03: best-matching n-gram statistics against direct search."""
import random

import torch
import k2
from hypothesis import strategies as st

from vlib.core import Sub, check, check_eq

TECHNIQUE = 'random key/query collections against comparing left contexts pairwise'
NOTE = ('Query positions only (the documentation leaves key positions undefined beyond not matching themselves alone). '
        'A query word without any matching key gets the mean and variance over all keys, count 0 and order 0.')
RULE = ('collections over small alphabets so that long repeats are likely, 2 or 3 axes, empty sentences and collections, any key marking, '
        'token ranges that take the 16-bit and the 32-bit path; big: up to 1000 words in a collection, up to 5000 collections. Non-trivial: some query matches with order 2 or more, with keys that do and keys that do not match.')


@st.composite
def collections(draw):
    axes = draw(st.sampled_from([2, 3]))
    seed = draw(st.integers(0, 10**6))
    rnd = random.Random(seed)
    nsym = draw(st.sampled_from([1, 2, 2, 3, 3, 5, 20]))
    ncol = draw(st.integers(0, 4)) if axes == 3 else 1
    base = draw(st.sampled_from([0, 0, 1, -1, 100, -70000, 40000, 32760]))
    span = draw(st.sampled_from([0, 0, 0, 3, 200, 32740, 32760, 40000]))
    bos = draw(st.integers(0, 4)) == 0
    slen = draw(st.sampled_from([2, 4, 4, 8, 20]))
    cols = []
    for _ in range(ncol):
        sents = []
        for _ in range(draw(st.integers(0, 6))):
            r = rnd.random()
            if sents and r < 0.4:
                s = list(rnd.choice(sents))[:-1] or [0]
                for _ in range(rnd.randint(0, 2)):
                    if s:
                        p = rnd.randrange(len(s))
                        q = rnd.random()
                        if q < 0.4:
                            s[p] = rnd.randrange(nsym)
                        elif q < 0.7:
                            del s[p]
                        else:
                            s.insert(p, rnd.randrange(nsym))
            else:
                s = [rnd.randrange(nsym) for _ in range(rnd.randint(0, slen))]
            if rnd.random() < 0.05:
                sents.append([])
                continue
            sents.append(([nsym + 1] if bos and s[:1] != [nsym + 1] else []) + s + [nsym])
        cols.append(sents)
    mode = draw(st.sampled_from(['sent', 'sent', 'sent', 'word', 'none', 'all', 'one']))
    return dict(axes=axes, cols=cols, nsym=nsym, base=base, span=span, mode=mode, seed=seed, order=draw(st.sampled_from([2, 2, 3, 5, 100])),
                eosfirst=draw(st.booleans()))


def marks(sents, c, rnd):
    out = []
    one = rnd.randrange(max(1, len(sents)))
    for i, s in enumerate(sents):
        k = rnd.random() < 0.5
        for _ in s:
            out.append(int({'sent': k, 'word': rnd.random() < 0.5, 'none': False, 'all': True, 'one': i == one}[c['mode']]))
    return out


def run(c):
    rnd = random.Random(c['seed'] + 1)
    n = c['nsym']
    # symbols 0..n-1, eos n, bos n+1 -> values
    vals = list(range(c['base'], c['base'] + n + 2))
    if c['eosfirst']:
        vals = vals[1:n + 1] + [vals[0]] + vals[n + 1:]
    lo, hi = c['base'], c['base'] + n + 1 + c['span']
    cols = [[[vals[w] for w in s] for s in sents] for sents in c['cols']]
    counts, scores = [], []
    for sents in cols:
        counts += marks(sents, c, rnd)
    scores = [float(rnd.randint(-40, 40)) / 4 for _ in counts]
    if c['axes'] == 3:
        tokens = k2.RaggedTensor(cols) if any(s for sents in cols for s in sents) else k2.RaggedTensor(
            '[ ' + ' '.join('[ ' + ' '.join('[ ]' for _ in sents) + ' ]' for sents in cols) + ' ]' if cols else '[ [ [ ] ] ]')
        if not cols:
            cols = [[[]]]
    else:
        tokens = k2.RaggedTensor(cols[0]) if any(cols[0]) else k2.RaggedTensor('[ ' + ' '.join('[ ]' for _ in cols[0]) + ' ]' if cols[0] else '[ [ ] ]')
    ts, tc = torch.tensor(scores, dtype=torch.float32), torch.tensor(counts, dtype=torch.int32)
    before = str(tokens)
    mean, var, cnt, order = [x.tolist() for x in k2.get_best_matching_stats(tokens, ts, tc, vals[n], lo, hi, c['order'])]
    check(str(tokens) == before and ts.tolist() == scores and tc.tolist() == counts, 'inputs changed', c)
    for x in (mean, var, cnt, order):
        check_eq(len(x), len(counts), 'length', c)
    off, deep, miss = 0, False, False
    for sents in cols:
        flat = [vals[n]] + [w for s in sents for w in s]         # with the padding eos in front
        pos = [j + 1 for s in sents for j in range(len(s))]       # words from the beginning of the sentence
        N = len(flat) - 1
        keys = [j for j in range(N) if counts[off + j]]
        for i in range(N):
            if counts[off + i]:
                continue
            what = ('query', i, 'of', sents, 'keys', keys, c)
            if not keys:
                check((mean[off + i], var[off + i], cnt[off + i], order[off + i]) == (0, 0, 0, 0), 'without keys', mean, var, cnt, order, *what)
                continue
            best, at = 0, keys
            for j in keys:
                m = 0
                while m <= min(i, j) + 1 and i + 1 - m >= 0 and j + 1 - m >= 0 and flat[i + 1 - m] == flat[j + 1 - m]:
                    m += 1
                if m > best:
                    best, at = m, [j]
                elif m == best and best:
                    at = at + [j]
            want_cnt = len(at) if best else 0
            # position i+1-m of flat is the padding or an eos when the match passes the beginning
            want_order = 0 if not best else c['order'] if best > pos[i] else min(best, c['order'])
            check_eq(cnt[off + i], want_cnt, 'count', *what)
            check_eq(order[off + i], want_order, 'order', 'match of', best, *what)
            sc = [scores[off + j] for j in at]
            mu = sum(sc) / len(sc)
            va = sum((s - mu) ** 2 for s in sc) / len(sc)
            check(abs(mean[off + i] - mu) < 1e-3, 'mean', mean[off + i], mu, *what)
            check(abs(var[off + i] - va) < 1e-2, 'variance', var[off + i], va, *what)
            deep = deep or best >= 2
            miss = miss or len(at) < len(keys)
        off += N
    wide = len(counts) + 10 >= 1 << 15 or hi - lo + 10 >= 1 << 15
    return deep and miss, [c['mode'], f'axes{c["axes"]}', '32bit' if wide else '16bit', f'order{c["order"]}']


@st.composite
def big(draw):
    seed = draw(st.integers(0, 10**6))
    how = draw(st.sampled_from(['long', 'many', 'repeats', 'sentences']))
    return dict(axes=3 if how == 'many' else draw(st.sampled_from([2, 3])), how=how, seed=seed, nsym=draw(st.sampled_from([2, 5, 50, 300, 40000])),
                base=draw(st.sampled_from([0, 0, 1, -1, -70000, 32760])), span=draw(st.sampled_from([0, 0, 200, 40000])),
                size=draw(st.sampled_from([300, 600, 1000])), mode=draw(st.sampled_from(['sent', 'word', 'word'])),
                order=draw(st.sampled_from([2, 3, 5, 100, 1000])), eosfirst=draw(st.booleans()))


def run_big(c):
    r = random.Random(c['seed'])
    n, size = c['nsym'], c['size']
    if c['how'] == 'many':          # more words in all than 16 bits count
        cols = [[[r.randrange(min(n, 4)) for _ in range(r.randint(0, 6))] + [n] for _ in range(3)] for _ in range(size * 5)]
    elif c['how'] == 'long':
        cols = [[[r.randrange(n) for _ in range(size // 2)] + [n] for _ in range(2)]]
    elif c['how'] == 'repeats':     # the same long sentence over and over, with a few slips
        s = [r.randrange(n) for _ in range(size // 4)]
        cols = [[[w if r.random() < 0.99 else r.randrange(n) for w in s] + [n] for _ in range(4)]]
    else:
        cols = [[[r.randrange(n) for _ in range(r.randint(0, 4))] + [n] for _ in range(size // 3)]]
    nt, labels = run(dict(c, cols=cols))
    return nt, labels + [c['how']]


SUBS = [Sub('big', big, run_big, 48), Sub('search', collections, run, 9000)]
