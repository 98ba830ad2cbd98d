"""C11: tracking keeps every detection of every snapshot, once and unchanged."""
import itertools

from mc.core import Group
from mc.track_ref import scripted
from mc.track_run import conserved, decide, run_script
from mc.world import dataset, eddies, gauss, is_empty, tables_equal, track, tracker

BOUNDS = ("scripted snapshots: every sequence of 4 (thorough: 5, and 6 of 4 frames) snapshots over 7 frames (none, one eddy at three places, two "
          "eddies in both orders, three), crowded frames of up to 12, 130 and 300 (600) eddies in every pair of orders; real fields: every "
          "presence pattern of 2 moving eddies over 4 snapshots (thorough: 5), every window t0 <= tf, detected with and without Gaussian fit")
ASSUMPTIONS = ["the detections of a snapshot are those of a single snapshot (C10)"]

KM = 1 / 111.19


def groups(ctx):
    import numpy as np
    import pandas as pd

    def eddy(x, y, tag, radius=60):
        return scripted(100 + x * KM, 5 + y * KM, radius, tag=tag, n=3 + tag % 3, sign=1.0 if tag % 2 else -1.0)

    FRAMES = {"-": [], "a": [(0, 0)], "b": [(30, 5)], "f": [(500, 0)], "af": [(2, 1), (501, 3)],
              "fa": [(503, -3), (-3, 2)], "abf": [(1, -2), (31, 7), (502, 4)]}

    def build(names):
        script, tag = [], 0
        for n in names:
            fr = []
            for x, y in FRAMES[n]:
                tag += 1
                fr.append(eddy(x, y, tag))
            script.append(fr)
        return script

    def sequence(names, t):
        if decide(build(names), t, names, identity=False) is None:
            t.trivial()

    yield Group("sequences", list(itertools.product(FRAMES, repeat=ctx.pick(4, 5))), sequence)
    if ctx.thorough:
        yield Group("long", list(itertools.product(["-", "a", "f", "fa"], repeat=6)), sequence)

    def crowd(case, t):
        n, order, gap, step = case
        script = []
        for k, size in enumerate((n, 0 if gap else n, n + 3, max(1, n - 2))):
            idx = list(range(size))
            if order == "reversed" and k % 2:
                idx.reverse()
            elif order == "rotated":
                idx = idx[k:] + idx[:k]
            script.append([eddy(150 * (i % 20) + step * k, 150 * (i // 20) + 40 * k * (i % 2), 400 * k + i) for i in idx])
        if decide(script, t, case, identity=False) is None:
            t.trivial()

    yield Group("crowds", list(itertools.product((1, 2, 3, 5, 9, 10, 11, 12), ("same", "reversed", "rotated"),
                                                 (False, True), (0, 20, 75)))
                + [(n, o, g, 20) for n in ctx.pick((130, 300), (130, 300, 600)) for o in ("same", "rotated") for g in (False, True)], crowd)

    def window(case, t):
        names, t0, tf = case
        script = build(names)
        tr, res, used = run_script(script, t0=t0, tf=tf)
        t.op()
        lo, hi = t0 or 0, len(script) if tf is None else tf
        if lo >= hi:
            t.check(is_empty(res), "%r: the window is empty, but the table isn't", case)
        if not used:
            return t.trivial()
        conserved(script, res, range(lo, hi), t, case)
        t.state(names, t0, tf, is_empty(res))

    seqs = [("a", "b", "-", "fa"), ("-", "-", "abf", "a"), ("-", "-", "-", "-"), ("af", "-", "-", "fa")]
    windows = [(a, b) for a in (None, 0, 1, 2, 3) for b in (None, 0, 1, 2, 3, 4) if b is None or (a or 0) <= b]
    yield Group("windows", [(s, *w) for s in seqs for w in windows], window)

    x, y = np.linspace(100, 104, 21), np.linspace(-3, 0, 16)
    X, Y = np.meshgrid(x, y)

    def fields(masks):
        out = []
        for k, m in enumerate(masks):
            f = 0 * X
            if m & 1:
                f = f + gauss(X, Y, 101.03 + 0.11 * k, -1.6 + 0.07 * k, 0.4, 0.37)
            if m & 2:
                f = f - gauss(X, Y, 103.1 - 0.12 * k, -1.3, 0.33, 0.3)
            if m & 4:
                f = f + np.nan
            out.append(f)
        return np.array(out)

    levels = np.array([-0.4, 0.0, 0.35, 0.5])
    snap = {}

    def real(case, t):
        masks, skip, (t0, tf) = case
        data = fields(masks)
        tr = tracker(dataset(data, x, y), skip=skip)
        script = []
        for k in range(len(masks)):
            key = (masks[k], k, skip)
            if key not in snap:
                one = tracker(dataset(data[k], x, y), skip=skip)
                snap[key] = eddies(one._detect_snapshot(None, levels))
            script.append(snap[key])
        kw = {k: v for k, v in (("t0", t0), ("tf", tf)) if v is not None}
        res = track(tr, levels, **kw)
        t.op(len(masks))
        lo, hi = t0 or 0, len(masks) if tf is None else tf
        conserved(script, res, range(lo, hi), t, case)
        t.state(is_empty(res), case[0])
        n = sum(len(s) for s in script)
        if not n:
            t.trivial()
        elif all(m == 3 for m in masks):
            t.check(n >= 2 * len(masks), "only %d eddies detected in %d snapshots", n, len(masks))

    n = ctx.pick(4, 5)
    cases = [(m, True, (None, None)) for m in itertools.product((0, 1, 2, 3), repeat=n)]
    cases += [((0, 3, 4, 1, 3), True, w) for w in windows] + [((3, 3, 3), False, (None, None)), ((0, 1, 3), False, (1, None)),
                                                              ((4, 4, 4), True, (None, None)), ((4, 3, 4), True, (None, None))]
    yield Group("fields", cases, real)
