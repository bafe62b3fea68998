"""Hypothesis strategies. All cases are JSON-able."""
import copy
from hypothesis import strategies as st


@st.composite
def fsa(draw, max_states=6, max_arcs=10, max_label=3, acyclic=True, top_sorted=True, eps=True,
        self_loops=False, empty=True, final_arcs=True, scores=(-24, 24), min_states=2,
        connected=False, uniform_scores=False):
    """A valid FSA.

    top_sorted: arcs go forward (self-loops too if self_loops).
    not top_sorted and acyclic: arcs follow a hidden order.
    not acyclic: anything goes.
    """
    if empty and draw(st.integers(0, 19)) == 0:
        return {'n': 0, 'arcs': []}
    n = draw(st.integers(min_states, max_states))
    lo = 0 if eps else 1
    m = draw(st.integers(0, max_arcs))
    if not top_sorted and acyclic and n > 3:
        perm = [0] + [x for x in draw(st.permutations(list(range(1, n - 1))))] + [n - 1]
    else:
        perm = list(range(n))
    arcs = []
    # a spine so that most machines have a path
    spine = draw(st.integers(0, 5)) > 0 or connected
    lab = st.integers(lo, max_label)
    sc = st.integers(*scores)

    def add(s, d):
        l = -1 if d == n - 1 else draw(lab)
        w = draw(sc)
        arcs.append([s, d, l, w])
    if connected:
        # every state on a path: each state gets an arc from an earlier one and to a later one
        for d in range(1, n):
            add(perm[draw(st.integers(0, d - 1))], perm[d])
        have = {a[0] for a in arcs}
        for s in range(0, n - 1):
            if perm[s] not in have:
                add(perm[s], perm[draw(st.integers(s + 1, n - 1))])
    elif spine:
        k = draw(st.integers(0, n - 2))
        if k == n - 2:
            mids = list(range(1, n - 1))
        else:
            mids = sorted(draw(st.sets(st.integers(1, n - 2), min_size=0, max_size=k))) if n > 2 else []
        seq = [0] + mids + [n - 1]
        for a, b in zip(seq, seq[1:]):
            add(perm[a], perm[b])
    for _ in range(m):
        if acyclic:
            if self_loops and draw(st.integers(0, 5)) == 0:
                s = draw(st.integers(0, n - 2))
                add(perm[s], perm[s])
                continue
            s = draw(st.integers(0, n - 2))
            d = draw(st.integers(s + 1, n - 1))
            add(perm[s], perm[d])
        else:
            s = draw(st.integers(0, n - 2))
            d = draw(st.integers(0, n - 1))
            add(s, d)
    if not final_arcs:
        arcs = [a for a in arcs if a[1] != n - 1]
    arcs.sort(key=lambda a: a[0])   # stable: keeps the drawn order within a state
    return {'n': n, 'arcs': arcs}


def fsa_vec(min_size=0, max_size=4, **kw):
    return st.lists(fsa(**kw), min_size=min_size, max_size=max_size)


@st.composite
def nested(draw, axes, max_len=4, leaf=None, min_len=0):
    """Nested lists with `axes` axes."""
    leaf = leaf if leaf is not None else st.integers(-5, 9)
    if axes == 1:
        return draw(st.lists(leaf, min_size=min_len, max_size=max_len))
    return draw(st.lists(nested(axes - 1, max_len, leaf, min_len), min_size=min_len, max_size=max_len))


def rand_fsa(r, n, m, max_label=4, eps=True, acyclic=True, self_loops=False, connected=True,
             scores=(-24, 24)):
    """A bigger machine from a random.Random (states top-sorted if acyclic)."""
    lo = 0 if eps else 1
    arcs = []

    def add(s, d):
        arcs.append([s, d, -1 if d == n - 1 else r.randint(lo, max_label), r.randint(*scores)])
    if connected:
        for d in range(1, n):
            add(r.randint(max(0, d - 4), d - 1), d)
        have = {a[0] for a in arcs}
        for s in range(n - 1):
            if s not in have:
                add(s, r.randint(s + 1, min(n - 1, s + 4)))
    for _ in range(m):
        s = r.randint(0, n - 2)
        if not acyclic:
            d = r.randint(0, n - 1)
        elif self_loops and r.random() < 0.15:
            d = s
        else:
            d = r.randint(s + 1, n - 1)
        add(s, d)
    arcs.sort(key=lambda a: a[0])
    return {'n': n, 'arcs': arcs}


@st.composite
def big_vec(draw, max_size=4, max_states=24, max_arcs=60, min_states=2, **kw):
    """A list of bigger machines; shrinks on sizes and the seed only."""
    import random
    out = []
    for _ in range(draw(st.integers(1, max_size))):
        r = random.Random(draw(st.integers(0, 2**32)))
        out.append(rand_fsa(r, draw(st.integers(min_states, max_states)),
                            draw(st.integers(0, max_arcs)), **kw))
    return out


WIDE = {
    'byte': lambda l: 253 + l,
    'short': lambda l: 32765 + l,
    'ushort': lambda l: 65533 + l,
    'stripes': lambda l: 1 + (l - 1) * 65536,
    'stripes8': lambda l: 1 + (l - 1) * 256,
    'float': lambda l: 2**24 + l,
    'top': lambda l: 2**31 - 2 - l,
    'mixed': lambda l: [1, 2**31 - 2, 65537, 32768, 257][l - 1] if l <= 5 else 2**20 + l,
}


@st.composite
def wide(draw, case, keys, one_in=6):
    """A case whose machines (lists of them under `keys`) now and then have labels far from each other or near the limits of narrower types."""
    c = draw(case)
    if draw(st.integers(0, one_in - 1)):
        return c
    m = WIDE[draw(st.sampled_from(sorted(WIDE)))]
    c = copy.deepcopy(c)
    fs = [f for k in keys for f in ([c[k]] if isinstance(c[k], dict) else sum(c[k], []) if c[k] and isinstance(c[k][0], list) else c[k])]
    for f in {id(f): f for f in fs}.values():
        f['arcs'] = [[a[0], a[1], m(a[2]) if a[2] > 0 else a[2]] + list(a[3:]) for a in f['arcs']]
    return c


@st.composite
def spread(draw, case, keys, one_in=40, sizes=(300, 5000, 70000)):
    """A case whose machines (as for wide) now and then have many states that nothing enters or leaves, between the others."""
    import random
    c = draw(case)
    if draw(st.integers(0, one_in - 1)):
        return c
    c = copy.deepcopy(c)
    r = random.Random(draw(st.integers(0, 10**6)))
    size = draw(st.sampled_from(sizes))
    fs = [f for k in keys for f in ([c[k]] if isinstance(c[k], dict) else sum(c[k], []) if c[k] and isinstance(c[k][0], list) else c[k])]
    for f in {id(f): f for f in fs}.values():
        n = f['n']
        if n < 2:
            continue
        m = size + r.randint(n, 2 * n)
        pos = [0] + sorted(r.sample(range(1, m - 1), n - 2)) + [m - 1]
        f['n'] = m
        f['arcs'] = [[pos[a[0]], pos[a[1]]] + list(a[2:]) for a in f['arcs']]
    return c


# ------------------------------------------------------------------ machines too big to draw arc by arc
HUGE = ['chain', 'fan', 'multi', 'mixed', 'jump', 'deadwood']


def huge(sizes=(300, 1100, 5000, 20000, 66000, 70000), kinds=tuple(HUGE)):
    """A recipe for build_huge()."""
    return st.fixed_dictionaries({'kind': st.sampled_from(list(kinds)), 'n': st.sampled_from(list(sizes)),
                                  'seed': st.integers(0, 10**6)})


def build_huge(h, max_label=4, scores=(-24, 24)):
    """A top-sorted acyclic machine of about h['n'] states or arcs."""
    import random
    r, n, kind = random.Random(h['seed']), h['n'], h['kind']
    arcs = []

    def add(s, d, N):
        arcs.append([s, d, -1 if d == N - 1 else r.randint(0, max_label), r.randint(*scores)])
    if kind == 'chain':                     # every state is a level
        N = n
        for s in range(N - 1):
            for _ in range(r.choice([1, 1, 1, 2])):
                add(s, s + 1, N)
    elif kind == 'fan':                     # one level holds every state
        N = n
        for s in range(1, N - 1):
            add(0, s, N)
        for s in range(1, N - 1):
            add(s, N - 1, N)
    elif kind == 'multi':                   # one state holds every arc
        N = 4
        k = r.randint(0, 2)
        for s in range(3):
            for _ in range(n if s == k else 2):
                add(s, s + 1, N)
    elif kind == 'mixed':
        N = n
        for s in range(N - 1):
            for _ in range(r.choice([1, 1, 2, 3])):
                add(s, min(N - 1, s + r.choice([1, 1, 2, 3, 8])), N)
    elif kind == 'jump':
        N = n
        for s in range(N - 1):
            add(s, r.randint(s + 1, N - 1), N)
            add(s, s + 1, N)
    else:                                   # most states lie on no path
        N = n
        keep = sorted(r.sample(range(1, N - 1), min(N // 50 + 1, N - 2)))
        seq = [0] + keep + [N - 1]
        for a, b in zip(seq, seq[1:]):
            add(a, b, N)
            if r.random() < 0.5:
                add(a, b, N)
        dead = set(range(1, N - 1)) - set(keep)
        for s in dead:                      # dead ends and unreachable states
            if r.random() < 0.7:
                d = r.randint(s + 1, min(N - 1, s + 9))
                if (s % 2 == 0) or d in dead:
                    if s % 2 == 0 or d % 2 == 1:
                        arcs.append([s, d, -1 if d == N - 1 else r.randint(0, max_label), r.randint(*scores)])
        for s in keep:
            for _ in range(r.randint(0, 2)):
                d = r.randint(s + 1, N - 1)
                if d in dead and d % 2 == 1:
                    add(s, d, N)
        arcs.sort(key=lambda a: a[0])
    return {'n': N, 'arcs': arcs}
