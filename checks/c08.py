"""C08: the attributes reported for an eddy are those of its contour and of the field."""
import itertools
import math

from mc.core import Group
from mc.eddy_ref import DEFAULT, judge
from mc.world import dataset, eddies, gauss, load, tracker

BOUNDS = ("9 meshes (regular, non-uniform, descending, rotated 10/30/45/80 degrees, curvilinear, coarse) x origins over "
          "{-170,-60,-1,0,120,359} x {-60,-20,0,7,45} x 13 positions of an eddy up to the edges x 4 shapes x 2 signs x "
          "2 levels; eddies around and next to stronger values of the other sign, at 20 offsets x 4 strengths; large eddies (1..12 degrees) at every offset from the origin of the coordinates; with the Gaussian fit on a subset")
ASSUMPTIONS = ["the area of a contour of n vertices is accepted within 10/n^2",
               "sign and extremum are decided on the grid points inside the contour and those nearest to its vertices"]


def groups(ctx):
    import numpy as np

    def mesh(kind, lon0, lat0, h=0.2, nx=26, ny=23):
        i, j = np.arange(nx) - (nx - 1) / 2, np.arange(ny) - (ny - 1) / 2
        if kind in ("regular", "descending", "desc_lon"):
            x, y = lon0 + h * i, lat0 + 0.9 * h * j
            if kind == "descending":
                y = y[::-1]
            if kind == "desc_lon":
                x = x[::-1]
            return x, y, *np.meshgrid(x, y)
        if kind == "nonuniform":
            x, y = lon0 + h * (i + 0.012 * i * i), lat0 + h * (j - 0.01 * j * abs(j))
            return x, y, *np.meshgrid(x, y)
        U, V = np.meshgrid(h * i, h * j)
        if kind.startswith("rot"):
            a = math.radians(float(kind[3:]))
        else:
            a = 0.35
        X = U * math.cos(a) - V * math.sin(a)
        Y = U * math.sin(a) + V * math.cos(a)
        if kind == "curvilinear":
            X, Y = X + 0.03 * Y * Y, Y - 0.02 * X * X
        X, Y = lon0 + X, lat0 + Y
        return X, Y, X, Y

    shapes = {"small": (1.9, 1.9, 0.0), "wide": (3.4, 3.0, 0.0), "slant": (3.3, 2.1, 0.8), "tall": (2.1, 3.0, 0.0)}

    def place(case, t, skip=True, levels=(0.3, 0.6)):
        kind, lon0, lat0, (pj, pi), shape, sign = case
        h = 0.2
        x, y, X, Y = mesh(kind, lon0, lat0, h)
        ny, nx = X.shape
        # between grid points, so that the extremum is unique
        j, i = min(int(pj * (ny - 1)), ny - 2), min(int(pi * (nx - 1)), nx - 2)
        x0 = X[j, i] + 0.31 * (X[j + 1, i + 1] - X[j, i]) * 0.7
        y0 = Y[j, i] + 0.27 * (Y[j + 1, i + 1] - Y[j, i]) * 0.7
        sx, sy, th = shapes[shape]
        f = sign * gauss(X, Y, x0, y0, sx * h, sy * h, th) - sign * 0.02 * np.sin(X * 1.3 + Y)
        crit = {"ellipse_fit": 1.0}
        tr = load(tracker(dataset(f, x, y), skip=skip, criteria=crit))
        n = 0
        for lev in levels:
            found, lost, outcomes = judge(tr, sign * lev, f, X, Y, dict(DEFAULT, **crit), skip, t)
            n += len(outcomes)
            for e in found:
                t.check(abs(e["maxima_x"] - x0) < 2 * h and abs(e["maxima_y"] - y0) < 2 * h,
                        "extremum at %r of an eddy at %r", (e["maxima_x"], e["maxima_y"]), (x0, y0))
                t.check(e["eddy_sign"] == sign, "sign %r of an eddy of amplitude %r", e["eddy_sign"], sign)
            if 0.25 <= pj <= 0.75 and 0.25 <= pi <= 0.75 and not (lat0 == -60 and shape != "small") and kind != "nonuniform":
                t.check(len(found) == 1, "a clean %s Gaussian eddy is not detected at level %r: %r", shape, lev, outcomes)
        if not n:
            t.trivial()

    def large(case, t):
        off, lat0, sigma, sign, kind, (pi, pj) = case
        h = sigma / 3.0
        x, y, X, Y = mesh(kind.split()[-1], 0.0, lat0, h, 30, 26)
        if kind.startswith("stretched"):
            # points crowded at one side
            w = np.linspace(-1, 1, 30)
            x = 15 * h * (w + 0.42 * (w * w - 1))
            X, Y = np.meshgrid(x, y)
        x0, y0 = off + 0.21 * h, lat0 + 0.13 * h
        X = X + off
        x = x + off
        f = gauss(X, Y, x0, y0, sigma, 0.9 * sigma)
        crit = {"max_area": 500.0}
        if (pi, pj) != (0, 0):
            # the extremum is away from the centre, by up to 1.3 of the 1.8 sigma to the outermost contour
            f = np.minimum(f, 0.6) + 0.5 * gauss(X, Y, x0 + pi * sigma, y0 + pj * sigma, (0.4 if kind.startswith("stretched") else 0.25) * sigma)
            crit["ellipse_fit"] = 2.0
        f = sign * f
        tr = load(tracker(dataset(f, x, y), skip=True, criteria=crit))
        for lev in (0.2, 0.5) if (pi, pj) == (0, 0) else (0.2,):
            found, lost, outcomes = judge(tr, sign * lev, f, X, Y, dict(DEFAULT, **crit), True, t)
            t.check(len(found) == 1, "large eddy not detected: %r", outcomes)
            e = found[0]
            peak = sign * (sign * f).max()
            t.check(abs(e["maxima"] - peak) < 1e-12, "extremum %r of an eddy with %r", e["maxima"], peak)

    def fitted(case, t):
        # eddies that are exactly Gaussian are recovered with the full criteria
        kind, lon0, lat0, pos, shape, sign = case
        place(case, t, skip=False)
        h = 0.2
        x, y, X, Y = mesh(kind, lon0, lat0, h)
        ny, nx = X.shape
        j, i = int(pos[0] * (ny - 1)), int(pos[1] * (nx - 1))
        sx, sy, th = shapes[shape]
        f = sign * gauss(X, Y, X[j, i], Y[j, i], sx * h, sy * h, th)
        tr = load(tracker(dataset(f, x, y), criteria={"ellipse_fit": 1.0}))
        tab, _ = tr._detect_one_level(sign * 0.5)
        t.op()
        es = eddies(tab)
        t.check(len(es) == 1, "an exact Gaussian is not detected")
        e = es[0]
        t.state([round(v, 6) for k, v in sorted(e.items()) if k not in ("path", "time")])
        t.check(abs(e["maxima"] - sign) < 1e-12 and abs(e["maxima_x"] - X[j, i]) + abs(e["maxima_y"] - Y[j, i]) < 1e-9,
                "extremum %r at %r", e["maxima"], (e["maxima_x"], e["maxima_y"]))
        t.check(e["contour_gaussian_error"] > 0.9, "Gaussian score %r of an exact Gaussian", e["contour_gaussian_error"])
        r = math.sqrt(2 * math.log(2))
        t.check(abs(e["ellipse_params_a"] - r * max(sx, sy) * h) < 0.05 * r * max(sx, sy) * h, "axis a %r", e["ellipse_params_a"])
        t.check(abs(e["ellipse_params_b"] - r * min(sx, sy) * h) < 0.05 * r * min(sx, sy) * h, "axis b %r", e["ellipse_params_b"])
        if sx != sy:
            want = th if sx > sy else th + math.pi / 2
            for k in ("ellipse_params_theta",):
                d = (e[k] - want) % math.pi
                t.check(min(d, math.pi - d) < 0.12, "%s %r instead of %r", k, e[k], want)

    def phase(case, t):
        # detection does not depend on the vertex at which the contour starts
        kind, shape, sign, lev = case
        h = 0.2
        x, y, X, Y = mesh(kind, 30.0, 10.0, h)
        j, i = 11, 13
        sx, sy, th = shapes[shape]
        x0, y0 = X[j, i] + 0.06, Y[j, i] + 0.05
        f = sign * gauss(X, Y, x0, y0, sx * h, sy * h, th)
        tr = load(tracker(dataset(f, x, y), skip=True))
        tab, lost = tr._detect_one_level(sign * lev)
        t.op()
        t.state(len(eddies(tab)), case)
        t.check(len(eddies(tab)) == 1, "a clean %s Gaussian eddy is discarded: %r", shape,
                lost["reason"].tolist() if len(lost) else [])

    def contrast(case, t):
        # an eddy around (and next to) values of the other sign, larger than its own
        kind, (lon0, lat0), sign, amp, (di, dj), width = case
        h = 0.2
        x, y, X, Y = mesh(kind, lon0, lat0, h)
        ny, nx = X.shape
        x0, y0 = X[ny // 2, nx // 2] + 0.31 * h, Y[ny // 2, nx // 2] + 0.23 * h
        xb, yb = X[ny // 2 + dj, nx // 2 + di], Y[ny // 2 + dj, nx // 2 + di]
        f = sign * (gauss(X, Y, x0, y0, 3.6 * h, 3.1 * h) - amp * gauss(X, Y, xb, yb, width * h))
        crit = {"ellipse_fit": 2.0, "eccentricity": 0.95}
        tr = load(tracker(dataset(f, x, y), skip=True, criteria=crit))
        for lev in (0.3, 0.5, -0.4):
            judge(tr, sign * lev, f, X, Y, dict(DEFAULT, **crit), True, t)

    yield Group("contrast", [(k, o, s, a, d, w) for k in ("regular", "descending", "rot30") for o in ((-60, -20), (0.4, 7))
                             for s in (1, -1) for a in (0.6, 1.5, 3.0, 20.0) for d in itertools.product((0, 1, 3, 5, 8), (0, 2, 4, 7))
                             for w in ctx.pick((0.6,), (0.5, 0.6, 1.0))], contrast)

    kinds = ("regular", "nonuniform", "descending", "desc_lon", "rot10", "rot30", "rot45", "rot80", "curvilinear")
    pos = [(a, b) for a in (0.0, 0.5, 0.97) for b in (0.03, 0.5, 1.0)] + [(0.3, 0.4), (0.12, 0.5), (0.55, 0.88), (0.9, 0.15)]
    origins = [(-170, 45), (-60, -20), (-1, 7), (0, 0), (120, -60), (359, 7)]
    if ctx.thorough:
        origins = [(a, b) for a in (-170, -60, -1, 0, 120, 359) for b in (-60, -20, 0, 7, 45)]
        pos = sorted(set(pos + [(a / 10, b / 10) for a in range(11) for b in range(0, 11, 2)]))
    yield Group("place", [(k, lo, la, p, s, g) for k in kinds for lo, la in origins for p in pos for s in shapes
                          for g in (1, -1)], place)
    yield Group("large", [(off, la, s, g, k, p) for off in ctx.pick((-9.0, -4.0, -1.0, 0.0, 0.7, 2.5, 6.0, 60.0), (-20, -9.0, -6, -4.0, -2, -1.0, -.3, 0.0, 0.7, 1.4, 2.5, 4, 6.0, 9, 60.0, 200))
                          for la in (-8, 0, 3, 25) for s in (1.0, 2.2, 3.5) for g in (1, -1) for k in ("regular", "descending")
                           for p in ((0, 0), (1.1, 0), (-1.1, 0.2), (0.1, 1.0), (0, -1.0), (0.7, -0.7))]
                + [(off, la, s, g, "stretched regular", p) for off in ctx.pick((-4.0, 0.0, 60.0), (-9.0, -4.0, -1.0, 0.0, 0.7, 2.5, 6.0, 60.0)) for la in (-8, 0, 3)
                   for s in (1.0, 2.2, 3.5) for g in (1, -1) for p in ((0, 0), (1.1, 0), (1.4, 0), (1.75, 0), (1.6, 0.5), (1.0, -0.8))], large)
    yield Group("fitted", [(k, lo, la, p, s, g) for k in ("regular", "descending", "rot30", "curvilinear")
                           for lo, la in ((-60, -20), (0, 0), (200, 12)) for p in ctx.pick([(0.5, 0.5), (0.4, 0.6)], [(0.5, 0.5), (0.4, 0.6), (0.35, 0.35), (0.6, 0.4)])
                           for s in shapes for g in (1, -1)], fitted)
    yield Group("phase", [(k, s, g, l) for k in ("regular", "descending", "desc_lon") for s in shapes for g in (1, -1)
                          for l in (0.3, 0.6)], phase)
