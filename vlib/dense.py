"""Reference for dense intersection: graphs against score matrices."""
import random

import torch
import k2

from vlib.fsa import f8

NEG = float('-inf')


def graph(r, C, n=None, m=None, final=0.6, oor=0.0, back=0.5, scores=(-24, 24), neginf=0.0):
    """A random arc-sorted decoding graph {'n', 'arcs'} (cycles, self-loops; scores in eighths)."""
    n = n or r.randint(2, 5)
    m = r.randint(1, 10) if m is None else m
    arcs = []

    def lab():
        return r.randint(C, C + 2) if r.random() < oor else r.randrange(C)

    def w():
        return r.randint(*scores)
    for s in range(n - 1):
        if r.random() < final or s == n - 2:
            arcs.append([s, n - 1, -1, w()])
    for d in range(1, n - 1):
        if r.random() < 0.85:
            arcs.append([r.randrange(d), d, lab(), w()])
    for _ in range(m):
        s = r.randrange(n - 1)
        d = r.randrange(n - 1) if r.random() < back else r.randint(s, n - 2)
        arcs.append([s, d, lab(), w()])
        if r.random() < 0.2:
            arcs.append([s, d, arcs[-1][2] if r.random() < 0.5 else lab(), w()])
    arcs.sort(key=lambda a: (a[0], a[2] & 0xffffffff, a[1]))
    return {'n': n, 'arcs': arcs}


def matrix(r, N, T, C, neginf=0.0, lo=-40, hi=0):
    """Scores in eighths, None for minus infinity."""
    return [[[None if r.random() < neginf else r.randint(lo, hi) for _ in range(C)] for _ in range(T)] for _ in range(N)]


def tensor(mat):
    t = torch.tensor([[[NEG if v is None else v / 8 for v in row] for row in seq] for seq in mat], dtype=torch.float32)
    return t


def frames(mat, seg, T):
    """Rows of a segment, as floats."""
    q, s, d = seg
    return [[NEG if v is None else v / 8 for v in row] for row in mat[q][s:min(s + d, T)]]


def trellis(g, fr):
    """fwd/bwd over layers 0..D+1 and {(t, arc): (score, best path through it)}."""
    n, D = g['n'], len(fr)
    arcs = [(s, d, l, f8(w)) for s, d, l, w in g['arcs']]

    def sc(t, a):
        l = a[2]
        if t == D:
            return a[3] if l == -1 else NEG
        if l < 0 or l >= len(fr[t]):
            return NEG
        return a[3] + fr[t][l]
    fwd = [[NEG] * n for _ in range(D + 2)]
    bwd = [[NEG] * n for _ in range(D + 2)]
    if n == 0:
        return fwd, bwd, NEG, {}
    fwd[0][0] = 0.0
    bwd[D + 1][n - 1] = 0.0
    for t in range(D + 1):
        for a in arcs:
            v = fwd[t][a[0]] + sc(t, a)
            if v > fwd[t + 1][a[1]]:
                fwd[t + 1][a[1]] = v
    for t in range(D, -1, -1):
        for a in arcs:
            v = bwd[t + 1][a[1]] + sc(t, a)
            if v > bwd[t][a[0]]:
                bwd[t][a[0]] = v
    best = fwd[D + 1][n - 1]
    out = {}
    if best > NEG:
        for t in range(D + 1):
            for i, a in enumerate(arcs):
                s = sc(t, a)
                v = fwd[t][a[0]] + s + bwd[t + 1][a[1]]
                if v > NEG:
                    out[t, i] = (s, v)
    return fwd, bwd, best, out
