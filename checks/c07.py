"""C07: every contour of a level is an eddy, or discarded for the criterion it fails."""
import itertools
import math

from mc.core import Group
from mc.eddy_ref import DEFAULT, judge, rossby
from mc.world import polygon_area, dataset, gauss, load, tracker

BOUNDS = ("fields made of every ordered pair of 11 features (round, elongated, slanted, square, L, triangle, negative, "
          "cut by the edge, ring, island, too large) on 2 meshes, levels +-0.3/0.6; all combinations of the criteria "
          "ellipse_fit {0.05,0.3,0.85}, eccentricity {0.2,0.6,0.85}, max_area {0.5,2pi,40}, gaussian_fit {0,0.8,0.97,2}; sizes 0.6% and 3% next to the limit at 16 latitudes; areas 4.5% and 10% next to their limit for 6 superellipses")
ASSUMPTIONS = ["a contour within the numerical error of a threshold may go either way",
               "contours of fewer than 6 distinct points are not judged",
               "contours themselves are as C01, scores as C05"]


def groups(ctx):
    import numpy as np

    ny, nx = 20, 40

    def mesh(kind):
        if kind == "mid":
            x, y = np.linspace(150, 157.8, nx), np.linspace(-41.9, -38.1, ny)
        else:
            x, y = np.linspace(-3.9, 3.9, nx), np.linspace(10.1, 13.9, ny)
        return x, y

    def feature(name, X, Y, cx, cy):
        U, V = X - cx, Y - cy
        if name == "none":
            return 0 * X
        if name == "round":
            return gauss(U, V, 0.07, 0.05, 0.5)
        if name == "negative":
            return -gauss(U, V, 0.03, -0.06, 0.55, 0.45)
        if name == "long":
            return gauss(U, V, 0, 0.02, 1.1, 0.35)
        if name == "slanted":
            return gauss(U, V, 0.05, 0, 0.7, 0.45, 0.7)
        if name == "square":
            return np.where((abs(U) < 0.85) & (abs(V) < 0.85), 1.0 + 0.1 * U + 0.05 * V, -0.01)
        if name == "L":
            return np.where(((abs(U) < 1.1) & (abs(V + 0.6) < 0.45)) | ((abs(U + 0.7) < 0.4) & (abs(V) < 1.1)),
                            0.9 + 0.05 * U, -0.02)
        if name == "tri":
            return np.where((V > -1) & (V < 1.6 * (1 - abs(U) / 1.2) - 1 + 0.5), 0.8 + 0.1 * V, 0.01)
        if name == "edge":
            return gauss(U, V, 0, 1.9, 0.6)
        if name == "ring":
            d = np.hypot(U, V)
            return np.exp(-((d - 1.1) / 0.25) ** 2)
        if name == "island":
            d = np.hypot(U, V * 1.1)
            return np.where(d < 0.75, 0.0, 1.0) * np.exp(-(np.maximum(d - 0.9, 0) / 0.6) ** 2)
        if name == "huge":
            return gauss(U, V, 0, 0, 1.6, 1.2)
        raise KeyError(name)

    names = ["round", "negative", "long", "slanted", "square", "L", "tri", "edge", "ring", "island", "huge"]

    def make(kind, a, b):
        x, y = mesh(kind)
        X, Y = np.meshgrid(x, y)
        cy = float(y.mean())
        return x, y, X, Y, feature(a, X, Y, x[10], cy) + feature(b, X, Y, x[29], cy)

    def run(case, t):
        kind, a, b, levels, crits, skip = case
        x, y, X, Y, f = make(kind, a, b)
        any_contour = False
        for c in crits:
            crit = dict(DEFAULT, **c)
            tr = load(tracker(dataset(f, x, y), skip=skip, criteria=c))
            t.check({k: tr.identification_criteria[k] for k in DEFAULT} == crit, "criteria %r", tr.identification_criteria)
            for lev in levels:
                _, _, outcomes = judge(tr, lev, f, X, Y, crit, skip, t)
                any_contour |= bool(outcomes)
        if not any_contour:
            t.trivial()

    skip_crits = [dict(ellipse_fit=e, eccentricity=k, max_area=m) for e in (0.05, 0.3, 0.85)
                  for k in (0.2, 0.6, 0.85) for m in (0.5, 2 * math.pi, 40)]
    fit_crits = [{}] + [dict(gaussian_fit=g) for g in (0, 0.97, 2)]
    pairs = [(a, b) for a in names for b in names + ["none"]]
    some = ctx.pick([p for k, p in enumerate(pairs) if p[1] in ("none", "negative", "island", "L")], pairs)
    yield Group("criteria", [(kind, a, b, (0.3, -0.3), skip_crits, True) for kind in ("mid", "low") for a, b in some], run)
    yield Group("gaussian", [(kind, a, b, (0.3, 0.6, -0.3), fit_crits, False) for kind in ("mid", "low") for a, b in
                             ctx.pick([(a, "none") for a in names] + [("round", "negative"), ("slanted", "edge"), ("ring", "round"), ("island", "slanted")], pairs)], run)

    def defaults(case, t):
        # the documented defaults, and their independence between trackers
        x, y, X, Y, f = make("low", "round", "negative")
        a = tracker(dataset(f, x, y))
        a.identification_criteria["eccentricity"] = 0.0
        a.identification_criteria["max_area"] = 1e-3
        b = tracker(dataset(f, x, y))
        t.op(2)
        t.check(b.identification_criteria == DEFAULT, "default criteria %r", b.identification_criteria)
        load(b)
        judge(b, 0.3, f, X, Y, DEFAULT, False, t)
        judge(load(a), 0.3, f, X, Y, dict(DEFAULT, eccentricity=0.0, max_area=1e-3), False, t)

    yield Group("defaults", [0], defaults)

    def monotone(case, t):
        # loosening a criterion never loses an eddy
        kind, a, b, lev = case
        x, y, X, Y, f = make(kind, a, b)
        tr = load(tracker(dataset(f, x, y), skip=True))

        def eddies_of(**c):
            from mc.world import eddies
            tr.identification_criteria = dict(DEFAULT, **c)
            tab, _ = tr._detect_one_level(lev)
            t.op()
            s = {(round(e["contour_x"], 6), round(e["contour_y"], 6), len(e["path"])) for e in eddies(tab)}
            t.state(sorted(s))
            return s
        for key, values in (("eccentricity", (0.0, 0.2, 0.4, 0.6, 0.75, 0.85, 0.95, 1.0)),
                            ("max_area", (0.05, 0.3, 0.8, 1.5, 3, 2 * math.pi, 20))):
            prev = set()
            for v in values:
                now = eddies_of(**{key: v})
                t.check(prev <= now, "loosening %s to %r loses %r", key, v, prev - now)
                prev = now

    yield Group("monotone", [(k, a, b, l) for k in ("mid", "low") for a, b in itertools.product(names, ["none", "negative", "slanted"])
                             for l in (0.3, -0.3)], monotone)

    def small(case, t):
        # the size and the place of an eddy do not decide whether it is reported
        h, lon, lat, r, sign = case
        x, y = lon + h * np.arange(20), lat + h * np.arange(18)
        X, Y = np.meshgrid(x, y)
        f = sign * (gauss(X, Y, x[9] + 0.3 * h, y[8] + 0.2 * h, r * h) + 0.4 * gauss(X, Y, x[15], y[12] + 0.4 * h, h))
        for skip in (True, False):
            tr = load(tracker(dataset(f, x, y), skip=skip))
            for lev in (0.3, 0.5):
                found, _, outcomes = judge(tr, sign * lev, f, X, Y, DEFAULT, skip, t)
                if r >= 2 and lev == 0.5 and (h <= 1e-2 or abs(lat) < 45):
                    t.check(len(found) == 1, "a Gaussian eddy of radius %r around %r is not detected: %r", r * h, (lon, lat), outcomes)

    yield Group("small", [(h, lo, la, r, s) for h in (0.25, 0.05, 1e-2, 2e-3, 4e-4) for lo, la in
                          ((0, 0), (10, -20), (75, 5), (150, 40), (179, 60), (270, -45), (340, 60), (359, -70), (-170, -60))
                          for r in (1.0, 2.0, 3.0) for s in (1, -1)], small)

    def grazing(case, t):
        # nodes barely above a level, alone or next to each other
        h, (lon, lat), eps, bits = case
        x, y = lon + h * np.arange(7), lat + h * np.arange(7)
        X, Y = np.meshgrid(x, y)
        f = -0.5 - 0.1 * np.sin(X * 3 + Y * 5)
        for k in range(6):
            if bits >> k & 1:
                f[2 + k // 2, 3 + k % 2] = 0.4 + eps * (1 + 0.3 * k)
        for skip in (True, False):
            tr = load(tracker(dataset(f, x, y), skip=skip, criteria={"eccentricity": 1}))
            _, _, outcomes = judge(tr, 0.4, f, X, Y, dict(DEFAULT, eccentricity=1), skip, t)

    yield Group("grazing", [(h, o, e, b) for h in ctx.pick((0.25,), (1.0, 0.25, 1e-2)) for o in ((0.3, 0.2), (150, 40), (340, 60))
                            for e in (0.0, 1e-15, 1e-13, 1e-11, 1e-9, 1e-7, 1e-4, 1e-2, 0.2) for b in ctx.pick(range(1, 64, 2), range(1, 64))], grazing)

    def rossby_limit(case, t):
        # the largest size follows the latitude of the contour
        lon, lat, elong = case
        x, y = lon + 0.04 * np.arange(45), lat + 0.04 * np.arange(45)
        X, Y = np.meshgrid(x, y)
        f = gauss(X, Y, x[22] + 0.013, y[21] + 0.007, 0.4 * elong, 0.4)
        wide = dict(DEFAULT, max_area=1e6)
        base, _, _ = judge(load(tracker(dataset(f, x, y), skip=True, criteria=wide)), 0.4, f, X, Y, wide, True, t)
        t.check(len(base) == 1, "%d eddies", len(base))
        own = base[0]["radius_eddy"] / rossby(base[0]["path"][:, 1].mean())
        for factor, n in ((0.97, 0), (0.994, 0), (1.006, 1), (1.03, 1)):
            crit = dict(DEFAULT, max_area=own * factor)
            tr = load(tracker(dataset(f, x, y), skip=True, criteria=crit))
            found, _, outcomes = judge(tr, 0.4, f, X, Y, crit, True, t)
            t.check(len(found) == n, "an eddy of radius %r at %r with the limit %r: %r", base[0]["radius_eddy"], (lon, lat),
                    base[0]["radius_eddy"] * factor, outcomes)

    yield Group("size limit", [(lo, la, e) for lo in (0.3, 200.0) for e in (1.0, 1.4) for la in
                               (-75.3, -61.0, -48.6, -33.4, -20.3, -12.9, -6.4, -0.9, 2.7, 5.55, 8.6, 15.45, 27.5, 40.6, 55.7, 80.3)],
                rossby_limit)

    def area_limit(case, t):
        # the areas of contour and ellipse are compared relative to that of the ellipse
        lat, p, ratio, lev = case
        x, y = 31.0 + 0.02 * np.arange(101), lat + 0.02 * np.arange(101)
        X, Y = np.meshgrid(x, y)
        U, V = (X - x[50] - 0.003) / 0.55, (Y - y[49] - 0.002) / (0.55 * ratio)
        f = np.exp(-(abs(U) ** p + abs(V) ** p))
        from trackeddy.geometry import extract_contours, fit_ellipse
        path = np.asarray(extract_contours(X, Y, f, lev)[0][0])
        E = polygon_area(fit_ellipse(path[:, 0].copy(), path[:, 1].copy())[0])
        own = abs(polygon_area(path) - E) / E
        if own < 0.02:
            return t.trivial()
        for factor, ok in ((0.9, False), (0.955, False), (1.045, True), (1.1, True)):
            crit = dict(DEFAULT, ellipse_fit=10 * own * factor)
            tr = load(tracker(dataset(f, x, y), skip=True, criteria=crit))
            _, _, outcomes = judge(tr, lev, f, X, Y, crit, True, t)
            t.check(("ellipse_area" not in outcomes) == ok, "areas that differ by %r of the ellipse with the limit %r: %r", own,
                    own * factor, outcomes)

    yield Group("area limit", [(la, p, r, l) for la in (-50.0, -1.0, 20.0) for p in (0.6, 0.8, 1.0, 1.2, 4.0, 8.0) for r in (1.0, 0.8)
                               for l in (0.3, 0.5)], area_limit)
