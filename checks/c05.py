"""C05: the similarity score of two contours follows their discrete Frechet distance."""
import itertools
import math

from mc.core import Group

BOUNDS = ("all pairs of curves of up to 3 points on 4 lattice points and up to 4 points on 3, with and without exact "
          "repetition; pairs of lengths in {1..5, 20, 150, 299..303, 599..605, 1201} of 4 families of long curves")
ASSUMPTIONS = ["when both curves exceed 300 points they are thinned before comparing; the accepted difference is the "
               "length of the longest thinned-out stretch of each curve"]


def frechet(p, q):
    n, m = len(p), len(q)
    d = [[math.hypot(a[0] - b[0], a[1] - b[1]) for b in q] for a in p]
    prev = None
    for i in range(n):
        row = d[i]
        cur = [0.0] * m
        for j in range(m):
            if i and j:
                r = prev[j]
                if prev[j - 1] < r:
                    r = prev[j - 1]
                if cur[j - 1] < r:
                    r = cur[j - 1]
            elif i:
                r = prev[0]
            elif j:
                r = cur[j - 1]
            else:
                r = 0.0
            cur[j] = r if r > row[j] else row[j]
        prev = cur
    return prev[m - 1]


def exhaustive_frechet(p, q):
    """The definition: minimum over all couplings of the longest link."""
    best = [math.inf]

    def go(i, j, worst):
        worst = max(worst, math.hypot(p[i][0] - q[j][0], p[i][1] - q[j][1]))
        if worst >= best[0]:
            return
        if i == len(p) - 1 and j == len(q) - 1:
            best[0] = worst
            return
        for di, dj in ((1, 0), (0, 1), (1, 1)):
            if i + di < len(p) and j + dj < len(q):
                go(i + di, j + dj, worst)
    go(0, 0, 0.0)
    return best[0]


def length(p):
    return sum(math.hypot(a[0] - b[0], a[1] - b[1]) for a, b in zip(p, p[1:]))


def groups(ctx):
    import numpy as np
    from trackeddy.geometry import compute_similarity, frdist

    def small(case, t):
        p, q = case
        want = exhaustive_frechet(p, q)
        P, Q = np.array(p, float), np.array(q, float)
        got = float(frdist(P, Q))
        back = float(frdist(Q, P))
        t.op(2)
        t.state(p, q)
        t.check(abs(got - want) < 1e-9, "Frechet distance %r instead of %r", got, want)
        t.check(abs(back - want) < 1e-9, "Frechet distance %r with the curves swapped instead of %r", back, want)
        lp, lq = length(p), length(q)
        if lp and lq:
            score = max(0.0, 1 - want / (math.sqrt(lp * lq) / math.sqrt(2)))
            for A, B in ((P, Q), (Q, P), (P * 7.5 + [100, -40], Q * 7.5 + [100, -40])):
                s = float(compute_similarity(A, B))
                t.op()
                t.check(0 <= s <= 1 and abs(s - score) <= 1.01e-4, "similarity %r instead of %r", s, score)
        else:
            t.trivial()

    def curve(kind, n, k):
        u = np.linspace(0, 1, n)
        if kind == "circle":
            return np.c_[np.cos(2 * np.pi * u + k), np.sin(2 * np.pi * u + k)] * (1 + 0.1 * k)
        if kind == "line":
            return np.c_[u * 10, k + 0 * u]
        if kind == "spike":
            p = np.c_[u * 10, 0 * u + 0.1 * k]
            p[n // 2, 1] += 3 + k
            return p
        return np.c_[u * 4, np.sin(7 * u + k) + 0.3 * np.sin(31 * u)]

    def thin(n, m):
        stride = 1
        c = 2
        while n > 300 and m > 300:
            n, m = -(-n // c), -(-m // c)
            stride *= c
            c += 1
        return stride

    def gap(P, stride):
        if stride == 1:
            return 0.0
        step = np.hypot(*np.diff(P, axis=0).T)
        c = np.concatenate([[0], np.cumsum(step)])
        n = len(P)
        kept = list(range(0, n, stride))
        w = max(c[b] - c[a] for a, b in zip(kept, kept[1:] + [n - 1]))
        return w

    def long(case, t):
        kind, n, m, k = case
        P, Q = curve(kind, n, 0), curve(kind, m, k)
        got = float(frdist(P, Q))
        t.op()
        t.state(round(got, 9), n, m)
        want = frechet(P.tolist(), Q.tolist())
        s = thin(n, m)
        slack = gap(P, s) + gap(Q, s) + 1e-9
        t.check(abs(got - want) <= slack, "Frechet distance %r instead of %r (+-%r)", got, want, slack)
        t.check(abs(float(frdist(Q, P)) - got) <= 1e-9, "Frechet distance depends on the order of the curves")
        t.op()
        if n > 1 and m > 1:
            sim = float(compute_similarity(P, Q))
            t.op()
            norm = math.sqrt(length(P.tolist()) * length(Q.tolist())) / math.sqrt(2)
            score = max(0.0, 1 - got / norm)
            t.check(0 <= sim <= 1 and abs(sim - score) <= 1.01e-4, "similarity %r instead of %r", sim, score)
            if k == 0 and n == m:
                t.check(sim == 1, "similarity %r of a curve with itself", sim)

    pts4 = [(0, 0), (1, 0), (0, 2), (3, 3)]
    pts3 = [(0, 0), (1.5, 0), (0, 1)]
    c4 = [c for n in (1, 2, 3) for c in itertools.product(pts4, repeat=n)]
    c3 = [c for n in (3, 4) for c in itertools.product(pts3, repeat=n)]
    yield Group("pairs_len3", [(p, q) for p in c4 for q in c4], small)
    yield Group("pairs_len4", [(p, q) for p in c3 for q in c3], small)
    sizes = ctx.pick((1, 2, 5, 20, 150, 299, 300, 301, 302, 605, 1201), (1, 2, 3, 4, 5, 20, 150, 299, 300, 301, 302, 303, 599, 600, 601, 605, 900, 901, 1201, 1900))
    yield Group("long", [(k, n, m, o) for k in ctx.pick(("circle", "spike"), ("circle", "line", "spike", "wave")) for n in sizes for m in sizes
                         for o in (0, 0.4) if n >= m or ctx.thorough], long)
