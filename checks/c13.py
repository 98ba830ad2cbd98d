"""C13: a track survives being unseen for up to ntimes snapshots, and no longer."""
import itertools

from mc.core import Group
from mc.track_ref import scripted
from mc.track_run import decide
from mc.world import dataset, eddies, gauss, track, tracker

BOUNDS = ("every presence pattern of an eddy over 7 (thorough: 9) snapshots x memories of 0,1,2,3,5 (thorough: also 4, 6, 8) snapshots and the default x 3 "
          "companions (none, an eddy always seen far away, a second track that passes near); gaps of 0..8 snapshots of "
          "two eddies independently; real eddies appearing with every pattern over 5 snapshots")
ASSUMPTIONS = ["a gap of g snapshots without the eddy is bridged if g <= ntimes"]

KM = 1 / 111.19


def groups(ctx):
    import numpy as np

    def eddy(dx, dy, tag, k):
        return scripted(30 + (dx + k) * KM, 3 + dy * KM, 45, tag=tag, n=3 + tag % 2)

    def pattern(case, t):
        bits, ntimes, companion = case
        script, tag = [], 0
        for k, b in enumerate(bits):
            fr = []
            if companion == "far":
                tag += 1
                fr.append(eddy(900, 10, tag, k))
            if b:
                tag += 1
                fr.append(eddy(0, 0, tag, k))
            if companion == "near" and k % 3 == 1:
                tag += 1
                fr.insert(0, eddy(31, -4, tag, k))
            script.append(fr)
        decide(script, t, case, ntimes=ntimes)

    n = ctx.pick(7, 9)
    pats = [(1,) + p for p in itertools.product((0, 1), repeat=n - 1)]
    memories = ctx.pick((0, 1, 2, 3, 5, None), (0, 1, 2, 3, 4, 5, 6, 8, None))
    yield Group("patterns", [(p, m, c) for p in pats for m in memories for c in ("none", "far", "near")], pattern)

    def gaps(case, t):
        g1, g2, ntimes = case
        n = max(g1, g2) + 3
        script = []
        for k in range(n):
            fr = []
            if k == 0 or k == g1 + 1:
                fr.append(eddy(0, 0, 10 * k + 1, k))
            if k == 1 or k == g2 + 2:
                fr.append(eddy(300, 30, 10 * k + 2, k))
            script.append(fr)
        decide(script, t, case, ntimes=ntimes)

    m = ctx.pick(8, 12)
    yield Group("gaps", [(a, b, k) for a in range(0, m) for b in range(0, m) for k in (0, 1, 2, 4, None, 7)
                         if ctx.thorough or abs(a - b) < 3], gaps)

    x, y = np.linspace(40, 43, 16), np.linspace(-3, 0, 16)
    X, Y = np.meshgrid(x, y)
    lev = np.array([0.4])

    def real(case, t):
        bits, ntimes = case
        data = np.array([b * gauss(X, Y, 41.4 + 0.05 * k, -1.5, 0.4, 0.36) for k, b in enumerate(bits)])
        kw = {} if ntimes is None else {"ntimes": ntimes}
        res = track(tracker(dataset(data, x, y), skip=True), lev, **kw)
        t.op(len(bits))
        got = {int(e["time"]): e["id"] for e in eddies(res)}
        t.check(sorted(got) == [k for k, b in enumerate(bits) if b], "%r: detected at %r", case, sorted(got))
        limit = 5 if ntimes is None else ntimes
        last = cur = None
        for k in sorted(got):
            if last is None:
                cur = got[k]
            elif k - last - 1 <= limit:
                t.check(got[k] == cur, "%r: the eddy of time %d has identifier %r instead of %r", case, k, got[k], cur)
            else:
                t.check(got[k] != cur, "%r: the eddy of time %d continues a track last seen at %d", case, k, last)
                cur = got[k]
            last = k
        t.state(got, ntimes)

    yield Group("fields", [(b, m) for b in itertools.product((0, 1), repeat=5) for m in (0, 1, 2, 5, None)], real)
