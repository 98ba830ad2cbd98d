"""C21: a detection ends with tables of eddies and discarded contours, whatever the field."""
import itertools
import math

from mc.core import Group
from mc.world import discarded, dataset, eddies, load, match, tracker, track

BOUNDS = ("every field of two values (thorough: three) on the 9 points inside a 5x5 grid, every field of two values on 4x4 points (thorough), every "
          "placement of missing points and plateaus of a 3x3 block, levels between, at and beyond the values, on 3 grids (regular, tiny, global), "
          "default and wide open criteria, with (quick: up to three high points, and the symmetries of the square) and without the Gaussian fit, each followed by the snapshot and tracking of it; grids of 1 to 3 rows or columns; 16 unusual levels (not finite, extreme, other types) x 6 fields")
ASSUMPTIONS = ["fields are finite or NaN, coordinates are finite and vary along their dimension"]


def groups(ctx):
    import numpy as np

    WIDE = {"ellipse_fit": 50.0, "eccentricity": 2.0, "max_area": 1e9, "gaussian_fit": 0.0}
    NAMES = {"area", "open_contour", "ellipse_area", "eccentricity", "similarity", "eddy_is_island", "gaussian_fit_failed", "gaussian_check"}

    def coords(kind, ny, nx):
        if kind == "tiny":
            return 20 + 1e-3 * np.arange(nx), 5 + 1e-3 * np.arange(ny)
        if kind == "global":
            return np.linspace(-180, 180, nx), np.linspace(-80, 80, ny)
        return 20 + 0.2 * np.arange(nx), 5 + 0.2 * np.arange(ny)

    def decide(case, t):
        f, kind, level, wide, skip = case
        f = np.array(f, float)
        x, y = coords(kind, *f.shape)
        tr = load(tracker(dataset(f, x, y), skip=skip, criteria=WIDE if wide else None))
        es, lost = tr._detect_one_level(level)
        t.op()
        found = eddies(es)
        lost = discarded(lost)
        t.state([(round(e["maxima"], 9), round(e["contour_x"], 6), round(e["contour_y"], 6)) for e in found],
                [(str(d["reason"]), round(float(d["contour_x"]), 6)) for d in lost])
        if not found and not lost:
            t.trivial()
        for e in found:
            p = e["path"]
            t.check(np.isfinite(p).all() and (p[0] == p[-1]).all() and len(p) > 3, "%r: contour %r", case, p.tolist())
            for k in ("area_eddy", "radius_eddy", "contour_x", "contour_y", "maxima", "maxima_x", "maxima_y", "eddy_sign"):
                t.check(math.isfinite(e[k]), "%r: %s is %r", case, k, e[k])
            t.check(e["level"] == level, "%r: level %r", case, e["level"])
            if not wide:
                bad = [k for k, v in e.items() if k not in ("path", "time") and not math.isfinite(v)]
                t.check(not bad, "%r: %r not finite", case, bad)
        for d in lost:
            t.check(str(d["reason"]) in NAMES and (np.isnan(f).any() or math.isfinite(float(d["contour_x"])) and math.isfinite(float(d["area_eddy"]))),
                    "%r: discarded %r", case, d)

    def block(vals, pad=0.0):
        n = int(round(math.sqrt(len(vals))))
        f = np.full((n + 2, n + 2), pad)
        f[1:-1, 1:-1] = np.array(vals).reshape(n, n)
        return tuple(map(tuple, f.tolist()))

    two = [block(v) for v in itertools.product((0.1, 1.0), repeat=9)]
    nan = float("nan")

    def canonical(f):
        a = np.array(f)
        return min(tuple(map(tuple, r.tolist())) for b in (a, a.T) for k in range(4) for r in (np.rot90(b, k),))

    # up to the symmetries of the square
    classes = sorted({canonical(f) for f in two if sum(v == 1.0 for r in f for v in r) <= 3})
    cases = [(f, "regular", 0.5, False, True) for f in two]
    cases += [(f, "regular", 0.5, True, True) for f in two]
    cases += [(f, "regular", 0.5, True, False) for f in (two if ctx.thorough else classes)]
    cases += [(f, "tiny", 1.0, True, True) for f in two] + [(f, "global", 0.5, True, True) for f in two]
    yield Group("two values", cases, decide)
    if ctx.thorough:
        three = [block(v) for v in itertools.product((0.0, 0.45, 1.0), repeat=9)]
        yield Group("three values", [(f, "regular", lev, True, True) for f in three for lev in (0.3, 0.6)], decide)
        yield Group("four by four", [(block(v), "regular", 0.5, True, True) for v in itertools.product((0.0, 1.0), repeat=16)], decide)

    special, seen = [], set()

    def once(b):
        key = canonical(block([9.0 if a != a else a for a in b]))
        new = key not in seen
        seen.add(key)
        return new or ctx.thorough

    for v in itertools.product((0.1, 1.0, nan), repeat=5):
        # a cross
        b = [0.1, v[0], 0.1, v[1], v[2], v[3], 0.1, v[4], 0.1]
        special += [(block(b), "regular", lev, w, True) for lev in (0.5, 1.0) for w in (False, True)]
        if once(b):
            special += [(block(b), "regular", 0.5, True, False)]
            special += [(block([-a for a in b]), "regular", -0.5, True, False)]
    for v in itertools.product((0.0, 1.0, nan), repeat=4):
        b = [0.0, 0.0, 0.0, 0.0] * 4
        for k, n in enumerate((5, 6, 9, 10)):
            b[n] = v[k]
        special += [(block(b), "regular", 0.5, w, s) for w in (False, True) for s in ((False, True) if once(b) else (True,))]
        special += [(block(b, nan), "regular", 0.5, True, True)]
    yield Group("missing", special, decide)

    rows = []
    for ny, nx in [(2, 2), (2, 3), (3, 2), (3, 3), (2, 6), (6, 2)]:
        for bits in range(min(2 ** (ny * nx), ctx.pick(64, 4096))):
            f = tuple(tuple(float(bits >> (j * nx + i) & 1) for i in range(nx)) for j in range(ny))
            rows += [(f, "regular", lev, True, True) for lev in (0.5, 1.0)]
    yield Group("slivers", rows, decide)

    def values(case, t):
        scale, shape, level, skip, wide = case
        j, i = np.indices((9, 11))
        if shape == "peak":
            f = np.exp(-((j - 4) ** 2 + (i - 5) ** 2) / 4.0)
        elif shape == "flat":
            f = np.ones((9, 11))
        elif shape == "plateau":
            f = ((abs(j - 4) < 3) & (abs(i - 5) < 3)).astype(float)
        elif shape == "chess":
            f = ((i + j) % 2).astype(float)
        elif shape == "ramp":
            f = i / 10.0
        elif shape == "rings":
            f = np.cos(np.hypot(j - 4, i - 5) * 1.7)
        else:
            f = np.where((i * 7 + j * 5 + i * j) % 6 == 0, 1.0, 0.0)
        decide((f * scale, "regular", level * scale, wide, skip), t)
        x, y = coords("regular", 9, 11)
        tr = tracker(dataset(np.array([f * scale, f * scale * 0.9]), x, y), skip=skip, criteria=WIDE if wide else None)
        res = track(tr, np.array([level * scale, level * scale * 0.6, -level * scale]))
        eddies(res)
        t.op()

    yield Group("values", [(s, n, l, k, w) for s in (1e-12, 1e-3, 1.0, -1.0, 1e6, 1e15) for n in ("peak", "flat", "plateau", "chess", "ramp", "rings", "dots")
                           for l in (0.5, 1.0, 0.2) for k in (True, False) for w in (False, True)
                           if ctx.thorough or k or (not w or s == 1.0) and (n in ("peak", "flat", "plateau", "ramp") or (s, l, w) == (1.0, 0.5, False))], values)

    inf = float("inf")
    KINDS = {"nan": nan, "inf": inf, "-inf": -inf, "huge": 1e308, "-huge": -1e308, "smallest": 5e-324, "zero": 0.0, "-zero": -0.0, "int": 1, "bool": True,
             "int64": np.int64(1), "float32": np.float32(0.5), "float16": np.float16(0.25), "0d": np.array(0.5), "max": None, "min": None}
    j, i = np.indices((9, 11))
    SHAPES = {"peak": np.exp(-((j - 4) ** 2 + (i - 5) ** 2) / 4.0), "rings": 1.5 * np.cos(np.hypot(j - 4, i - 5) * 1.7), "flat": np.ones((9, 11)),
              "steps": np.round(2 * np.exp(-((j - 4) ** 2 + (i - 5) ** 2) / 9.0)), "missing": np.where((i + 2 * j) % 9 == 3, nan, np.cos(i) * np.cos(j)),
              "huge": 1e307 * np.exp(-((j - 4) ** 2 + (i - 5) ** 2) / 4.0)}

    def odd(case, t):
        kind, shape, wide = case
        f = SHAPES[shape]
        level = {"max": np.nanmax(f), "min": np.nanmin(f)}.get(kind, KINDS[kind])
        decide((f.tolist(), "regular", level, wide, True), t)
        x, y = coords("regular", 9, 11)
        alone = eddies(tracker(dataset(f, x, y), skip=True, criteria=WIDE if wide else None)._detect_snapshot(None, [0.55]))
        both = eddies(tracker(dataset(f, x, y), skip=True, criteria=WIDE if wide else None)._detect_snapshot(None, [level, 0.55]))
        t.op(2)
        if not math.isfinite(level):
            bad = match(alone, both, "with level %r" % level)
            t.check(bad is None, "%r: %s", case, bad)
        res = track(tracker(dataset(np.array([f, f]), x, y), skip=True, criteria=WIDE if wide else None), [0.55, level])
        eddies(res)
        t.op()

    yield Group("levels", list(itertools.product(KINDS, SHAPES, (False, True))), odd)
