"""C12: an identifier denotes one eddy in time: the nearest within its radius continues a track."""
import itertools
import math

from mc.core import Group
from mc.track_ref import scripted
from mc.track_run import by_time, conserved, decide, run_script
from mc.world import dataset, eddies, gauss, track, tracker

BOUNDS = ("every pair of snapshots over all ordered selections of up to 3 of 4 positions x 2 radii, every sequence of 3 "
          "(thorough: 4) snapshots over 13 frames of competing eddies and of 5 (6) over 4 frames, at 5 places of the globe (equator, "
          "high latitudes, both sides of the date line); every sequence tracked up to each of its snapshots; 6 patterns of up to 40 (260) simultaneous eddies in 3 orders, sequences of "
          "up to 26 (110) snapshots; real moving eddies that meet")
ASSUMPTIONS = ["distance: great circle between the extrema of the eddies on a sphere of 6371 km; limit: the radius of the new eddy",
               "eddies at equal distances may be resolved either way"]

KM = 1 / 111.19


def groups(ctx):
    import numpy as np

    POS = {"a": (0, 0), "b": (24, 3), "c": (-37, -5), "f": (420, 20)}
    PLACES = [(100, 0.5), (179.9, -1), (-60, 60), (0.05, -72), (359.9, 35)]

    def build(frames, place=0):
        lon0, lat0 = PLACES[place]
        script, tag = [], 0
        for k, fr in enumerate(frames):
            recs = []
            for name in fr:
                tag += 1
                small = name.isupper()
                dx, dy = POS[name.lower()]
                lat = lat0 + (dy + 1.3 * k) * KM
                lon = lon0 + (dx + 1.7 * k) * KM / math.cos(math.radians(lat))
                if lon0 > 170:
                    lon = (lon + 180) % 360 - 180
                elif lon0 < 1 and lon0 >= 0:
                    pass
                recs.append(scripted(lon, lat, 28 if small else 60, tag=tag, n=3 + tag % 2))
            script.append(recs)
        return script

    def sequence(case, t):
        frames, place = case
        if decide(build(frames, place), t, case) is None:
            t.trivial()

    ordered = [p for n in range(0, 4) for p in itertools.permutations("abcf", n)]
    second = ordered + [tuple(s.upper() for s in p) for p in ordered if 0 < len(p) < 3]
    first = [p for p in ordered if list(p) == sorted(p)] if not ctx.thorough else ordered
    yield Group("pairs", [((p, q), 0) for p in first if p for q in second], sequence)
    frames = ["", "a", "b", "f", "ab", "ba", "ac", "fa", "bc", "cba", "abf", "B", "Ca"]
    yield Group("triples", [(s, 0) for s in itertools.product(frames, repeat=ctx.pick(3, 4)) if s[0]], sequence)
    yield Group("long", [(s, 0) for s in itertools.product(["", "ab", "b", "cf"], repeat=ctx.pick(5, 6))], sequence)
    yield Group("places", [((p, q, r), k) for k in range(1, len(PLACES)) for p in ("a", "ab", "cf", "abc")
                           for q in ("b", "ba", "Bc", "", "fca") for r in ("a", "cb")], sequence)

    def many(case, t):
        """Numerous tracks at once: more of them than digits, columns or levels."""
        count, pattern, order, step = case
        script = []
        for k in range(4):
            recs = []
            for i in range(count):
                if {"all": True, "odd": (i + k) % 2, "thirds": (i + k) % 3, "waves": (i // 5 + k) % 3,
                        "growing": i < (k + 1) * count // 4, "shrinking": i >= k * count // 4}[pattern]:
                    lon = 20 + 2.1 * (i % 12) + step * k * KM * (1 if i % 2 else -1)
                    lat = -20 + 2.3 * (i // 12) + 9 * k * KM
                    recs.append(scripted(lon, lat, 55, tag=1000 * k + i, n=3 + i % 2, sign=-1.0 if i % 3 else 1.0))
            if order == "reversed" and k % 2:
                recs.reverse()
            elif order == "strided":
                recs = [r for m in range(k + 1) for r in recs[m::k + 1]]
            script.append(recs)
        if decide(script, t, case) is None:
            t.trivial()

    yield Group("many", list(itertools.product(ctx.pick((9, 13, 40), (9, 10, 11, 13, 40, 101, 260)),
                                               ("all", "odd", "thirds", "waves", "growing", "shrinking"),
                                               ("same", "reversed", "strided"), (10, 70))), many)

    def lasting(case, t):
        """Many snapshots: tracks that last, come and go, and replace each other."""
        n, period, drift = case
        script = []
        for k in range(n):
            recs = []
            if k % period != 1:
                recs.append(scripted(100 + drift * k * KM, 10, 60, tag=10 * k))
            if (k // period) % 2:
                recs.insert(0, scripted(100 + (90 - drift * k) * KM, 10.1, 60, tag=10 * k + 1, n=4))
            if k % (period + 2) < 2:
                recs.append(scripted(103, 5 + 0.01 * k, 30, tag=10 * k + 2, n=5))
            script.append(recs)
        if decide(script, t, case) is None:
            t.trivial()

    yield Group("lasting", list(itertools.product((12, ctx.pick(26, 110)), (2, 3, 5, 7, 9), (0.3, 6.1, 20.3))), lasting)

    def prefixes(frames, t):
        """Tracking more snapshots doesn't change the tracks so far."""
        script = build(frames)
        tables = []
        for n in range(1, len(script) + 1):
            tr, res, used = run_script(script, tf=n)
            t.op(n)
            if not used:
                return t.trivial()
            tables.append(conserved(script, res, range(n), t, frames))
        for n, ids in enumerate(tables):
            for k in ids:
                t.check(ids[k] == tables[-1][k], "%r: identifiers of snapshot %d: %r after %d snapshots, %r after %d",
                        frames, k, ids[k], n + 1, tables[-1][k], len(script))
        t.state([sorted(m.values()) for m in tables[-1].values()])

    yield Group("prefixes", list(itertools.product(["", "a", "ba", "fc", "bcf"], repeat=ctx.pick(3, 5))), prefixes)

    x, y = np.linspace(40, 46, 31), np.linspace(-3, 1, 21)
    X, Y = np.meshgrid(x, y)
    levels = np.array([-0.45, 0.45])
    snap = {}

    def moving(case, t):
        """Real eddies on straight paths: each keeps its identifier while it
        moves less than its radius, and no other takes it."""
        speed, gap, masks = case
        n = len(masks)
        paths = [(41 + speed * k, -1.8) for k in range(n)], [(45 - speed * k, -1.8 + gap) for k in range(n)]
        data, present = [], []
        for k, m in enumerate(masks):
            f = 0 * X
            here = []
            for e in range(2):
                if m >> e & 1:
                    f = f + gauss(X, Y, *paths[e][k], 0.36, 0.34)
                    here.append(e)
            data.append(f)
            present.append(here)
        data = np.array(data)
        script = []
        for k in range(n):
            key = (speed, gap, masks[k], k)
            if key not in snap:
                one = tracker(dataset(data[k], x, y), skip=True)
                snap[key] = eddies(one._detect_snapshot(None, levels))
            script.append(snap[key])
        res = track(tracker(dataset(data, x, y), skip=True), levels)
        t.op(n)
        ids = conserved(script, res, range(n), t, case)
        from mc.track_ref import Ambiguous
        from mc.track_run import identities
        try:
            identities(script, ids, range(n), 5, t, case)
        except Ambiguous:
            t.trivial()
        t.state([sorted(m.values()) for m in ids.values()])

    yield Group("moving", list(itertools.product((0.15, 0.4, 0.9), (1.0, 1.9),
                                                 list(itertools.product((1, 3, 2, 0), repeat=ctx.pick(3, 4))))), moving)
