"""Reference for RNN-T style monotonic alignment sums (plain Python floats)."""
import math

NEG = float('-inf')


def lse(xs):
    m = max(xs)
    if m == NEG:
        return NEG
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


def steps(s, t, modified):
    """The two moves out of (s, t): (next, axis)."""
    return ((s + 1, t + 1) if modified else (s + 1, t), 'x'), ((s, t + 1), 'y')


def align(px, py, box, modified):
    """px[s][t], py[s][t]: nested lists. Returns (log-sum over alignments, occupation of px, occupation of py)."""
    s0, t0, s1, t1 = box
    S, T = len(px), len(py[0])
    T1 = T if modified else T + 1
    occx = [[0.0] * T1 for _ in range(S)]
    occy = [[0.0] * T for _ in range(S + 1)]
    # beta[s][t]: log-sum of the completions from (s, t)
    beta = {}
    for s in range(s1, s0 - 1, -1):
        for t in range(t1, t0 - 1, -1):
            if (s, t) == (s1, t1):
                beta[s, t] = 0.0
                continue
            xs = []
            if s < s1 and (not modified or t < t1):
                xs.append(px[s][t] + beta[s + 1, t + 1 if modified else t])
            if t < t1:
                xs.append(py[s][t] + beta[s, t + 1])
            beta[s, t] = lse(xs) if xs else NEG
    tot = beta[s0, t0]
    if tot == NEG:
        return tot, None, None
    alpha = {(s0, t0): 0.0}
    prob = {(s0, t0): 1.0}
    for s in range(s0, s1 + 1):
        for t in range(t0, t1 + 1):
            q = prob.get((s, t), 0.0)
            if q == 0.0 or beta[s, t] == NEG:
                continue
            if s < s1 and (not modified or t < t1):
                n = (s + 1, t + 1 if modified else t)
                o = q * math.exp(px[s][t] + beta[n] - beta[s, t])
                occx[s][t] += o
                prob[n] = prob.get(n, 0.0) + o
            if t < t1:
                o = q * math.exp(py[s][t] + beta[s, t + 1] - beta[s, t])
                occy[s][t] += o
                prob[s, t + 1] = prob.get((s, t + 1), 0.0) + o
    return tot, occx, occy


def enum(px, py, box, modified, limit=300):
    """The same sum by listing the alignments; None if there are more than `limit`."""
    s0, t0, s1, t1 = box
    if math.comb(s1 - s0 + t1 - t0, s1 - s0) > limit:
        return None
    ws = []

    def go(s, t, w):
        if (s, t) == (s1, t1):
            ws.append(w)
            return
        if s < s1 and (not modified or t < t1):
            go(s + 1, t + 1 if modified else t, w + px[s][t])
        if t < t1:
            go(s, t + 1, w + py[s][t])
    go(s0, t0, 0.0)
    return lse(ws) if ws else NEG
