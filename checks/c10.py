"""C10: detecting over several levels yields every eddy once, at its best level."""
import itertools

from mc.core import Group
from mc.track_ref import Ambiguous, merge_levels, pair_up, scripted, table
from mc.world import dataset, eddies, gauss, load, quiet, tracker

BOUNDS = ("scripted levels: every sequence of 2 levels of up to 2 eddies (4 positions on both sides of the limits of each "
          "other's radius x 3 pairs of scores x 2 radii), of 3 levels (thorough: 4) over a smaller alphabet, and every "
          "configuration of 3 new eddies (of the same or of different radii) over 2 previous ones, 5 patterns of up to 25 (101) eddies over up to 13 (40) levels; real fields: 4 fields (2 of them also with tiny and huge values) x every subset and order of up to 3 "
          "(4) of 6 levels (quick: increasing, and a few others), as array, list and tuple, with zero and repeated levels, with and without the Gaussian fit")
ASSUMPTIONS = ["detections of a single level are as C07/C08",
               "an eddy is better if both its scores are lower; eddies at equal distances may be resolved either way"]

KM = 1 / 111.19


def groups(ctx):
    import numpy as np
    import pandas as pd
    from trackeddy.trackeddy import TrackEddy

    class Scripted(TrackEddy):
        script = ()
        calls = ()

        def _detect_one_level(self, level):
            self.calls = self.calls + (float(level),)
            return table(self.script[float(level)]), []

    flat = dataset(np.zeros((4, 5)), np.arange(5.0), np.arange(4.0))

    POS = {"a": (0, 0), "b": (20, 0), "c": (-37, 9), "f": (400, 50)}
    SCORE = {"g": (0.2, 0.85), "b": (0.6, 0.95), "m": (0.1, 0.99), "n": (0.7, 0.82)}

    def build(frames):
        """frames: tuple of levels, each a tuple of (pos, score, radius)."""
        out, tag = {}, 0
        for k, fr in enumerate(frames):
            lev = 0.1 * (k + 1)
            recs = []
            for pos, score, radius in fr:
                tag += 1
                dx, dy = POS[pos]
                recs.append(scripted(20 + dx * KM, dy * KM, radius, *SCORE[score], tag=tag, level=lev, n=3 + tag % 2))
            out[lev] = recs
        return out

    def decide(frames, t):
        script = build(frames)
        levels = list(script)
        try:
            want = merge_levels([script[v] for v in levels])
        except Ambiguous:
            return t.trivial()
        tr = tracker(flat, cls=Scripted)
        tr.script, tr.calls = script, ()
        res = tr._detect_snapshot(0, np.array(levels))
        t.op(len(levels))
        if tr.calls != tuple(levels):
            # The levels aren't detected through this method: the real
            # fields below decide alone.
            return t.trivial()
        judge(want, res, t, frames)

    def judge(want, res, t, case):
        got = eddies(res)
        t.state(sorted((e["area_eddy"], e["level"]) for e in got))
        pairs = pair_up(want, got)
        t.check(not isinstance(pairs, str), "%s\nlevels %r\nexpected %r\ngot %r", pairs, case,
                [(e["area_eddy"], e["level"]) for e in want], [(e["area_eddy"], e["level"]) for e in got])
        t.check([e["id"] for e in got] == list(range(len(got))), "identifiers %r", [e["id"] for e in got])

    def atoms(pos, scores, radii):
        return list(itertools.product(pos, scores, radii))

    def frames_of(pos, scores, radii, upto, both_radii=True):
        out = [()] + [(a,) for a in atoms(pos, scores, radii)]
        for n in range(2, upto + 1):
            for ps in itertools.permutations(pos, n):
                for ss in itertools.product(scores, repeat=n):
                    for rr in (itertools.product(radii, repeat=n) if both_radii else [(r,) * n for r in radii]):
                        out.append(tuple(zip(ps, ss, rr)))
        return out

    first = frames_of(ctx.pick("abf", "abcf"), ctx.pick("gb", "gbn"), (60,), 2)
    second = frames_of("abcf", ctx.pick("gm", "gbm"), (30, 60), 2, both_radii=False)
    yield Group("two levels", list(itertools.product(first[1:], second)), decide)

    alpha = frames_of("abf", "gb", (60,), 1) + [(("a", "g", 60), ("b", "b", 60)), (("b", "n", 60), ("a", "g", 60)),
                                                 (("f", "b", 60), ("c", "g", 30))]
    depth = ctx.pick(3, 4)
    yield Group("levels", list(itertools.product(alpha, repeat=depth)), decide)

    crowd = []
    for n_prev in (1, 2):
        for ps in ctx.pick([("a",), ("f",)] if n_prev == 1 else [("a", "b"), ("b", "f")],
                           list(itertools.permutations("abf", n_prev))):
            for ss in itertools.product("nb", repeat=n_prev):
                prev = tuple((p, s, 60) for p, s in zip(ps, ss))
                for qs in itertools.permutations("abcf", 3):
                    for zz in itertools.product("gm", repeat=3):
                        crowd.append((prev, tuple((q, z, 60) for q, z in zip(qs, zz))))
                    for rr in ((60, 30, 90), (30, 90, 60), (90, 60, 30)):
                        crowd.append((prev, tuple((q, "g", r) for q, r in zip(qs, rr))))
    yield Group("crowd", crowd, decide)

    def many(case, t):
        """Numerous eddies and levels: more than digits or columns."""
        nlev, count, pattern, order = case
        script, tag = {}, 0
        for k in range(nlev):
            recs = []
            for i in range(count):
                if {"all": True, "odd": (i + k) % 2, "thirds": (i + k) % 3 == 0, "first": k == i % nlev,
                        "none between": k in (0, nlev - 1)}[pattern]:
                    tag += 1
                    ell, gau = 0.1 + (7 * i + 5 * k) % 11 / 20, 0.8 + (7 * i + 5 * k + (i + k) % 2) % 11 / 100
                    recs.append(scripted(20 + 1.7 * (i % 9) + 3 * k * KM * (-1) ** i, 1.9 * (i // 9), 40 + 3 * (i % 5), ell, gau,
                                         tag=tag, level=0.1 * (k + 1), n=3 + tag % 2))
            if order == "reversed" and k % 2:
                recs.reverse()
            script[0.1 * (k + 1) if order != "reversed" else -0.1 * (k + 1)] = recs
        levels = list(script)
        want = merge_levels([script[v] for v in levels])
        tr = tracker(flat, cls=Scripted)
        tr.script, tr.calls = script, ()
        res = tr._detect_snapshot(0, np.array(levels))
        t.op(len(levels))
        if tr.calls != tuple(levels):
            return t.trivial()
        judge(want, res, t, case)

    yield Group("many", list(itertools.product((3, 11, ctx.pick(13, 40)), (1, 9, 11, ctx.pick(25, 101)),
                                               ("all", "odd", "thirds", "first", "none between"),
                                               ("same", "reversed"))), many)

    # ---- real fields

    x, y = np.linspace(20, 26, 31), np.linspace(-32, -27, 26)
    X, Y = np.meshgrid(x, y)
    fields = [
        gauss(X, Y, 22.1, -30.2, 0.45) + gauss(X, Y, 24.3, -28.7, 0.35, 0.5, 0.4, 0.75) - gauss(X, Y, 24.2, -30.6, 0.4),
        gauss(X, Y, 22.3, -29.6, 0.5) + gauss(X, Y, 23.5, -29.3, 0.45, amp=0.9),
        gauss(X, Y, 22.5, -29.5, 0.9) + gauss(X, Y, 22.9, -29.7, 0.25, amp=0.5) - gauss(X, Y, 24.7, -28.6, 0.33, 0.5, 0.9, 1.2),
        gauss(X, Y, 21.2, -28.5, 0.3, 0.5, 0.4) + 0.7 * np.cos(X * 2.1) * np.cos(Y * 1.9 + 0.4),
    ]
    # the same in units in which its values are tiny, or huge
    fields += [fields[0] * 2.0 ** -34, fields[1] * 2.0 ** 30]
    units = (1.0,) * 4 + (2.0 ** -34, 2.0 ** 30)
    lev = (0.15, 0.3, 0.5, 0.7, -0.3, -0.6)
    cache = {}

    def single(k, skip, level):
        if (k, skip, level) not in cache:
            tr = load(tracker(dataset(fields[k], x, y), skip=skip))
            cache[k, skip, level] = eddies(tr._detect_one_level(level)[0])
        return cache[k, skip, level]

    def real(case, t):
        k, skip, levels, kind = case
        levels = tuple(v * units[k] for v in levels)
        try:
            want = merge_levels([single(k, skip, v) for v in levels if v != 0])
        except Ambiguous:
            return t.trivial()
        given = {"array": np.array, "list": list, "tuple": tuple}[kind](levels)
        tr = tracker(dataset(fields[k], x, y), skip=skip)
        before = list(levels)
        res = tr._detect_snapshot(0, given)
        t.op(len(levels))
        judge(want, res, t, case)
        t.check(list(given) == before, "the levels were modified")
        if not want:
            t.trivial()

    cases = []
    for k in range(len(fields)):
        for n in range(1, ctx.pick(2, 4) + 1):
            for seq in itertools.permutations(lev, n):
                if k < 4 and (list(seq) == sorted(seq) or ctx.thorough):
                    cases.append((k, False, seq, "array"))
        cases += [(k, False, lev, "array"), (k, False, lev[3::-1], "array"), (k, False, lev[:3:-1], "list")]
        cases += [(k, False, (0.3, 0.0, 0.5), "list"), (k, False, (0.0,), "array"), (k, False, (0.3, 0.3), "tuple"),
                  (k, True, (0.15, 0.3, 0.5), "tuple"), (k, True, (0.5, -0.3, 0.0, 0.3), "array"),
                  (k, False, (-0.6, -0.3, 0.0, 0.3), "list"), (k, False, (5.0, 0.3), "array")]
        cases += [(k, True, tuple(seq), "array") for seq in (np.arange(-0.95, 1, 0.1), np.arange(0.95, 0, -0.05),
                                                              np.linspace(-1.2, 1.2, 25))]
    yield Group("fields", cases, real)
