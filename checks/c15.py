"""C15: detection commutes with the symmetries of the sphere and of the amplitude."""
import itertools
import math

from mc.core import Group
from mc.world import dataset, eddies, gauss, load, tracker

BOUNDS = ("6 fields (1..3 eddies of every shape and sign) on 4 grids (regular, uneven, rotated, curvilinear) x 4 latitudes x 5 levels x every "
          "composition of the symmetries: sign of the field, 7 scales, 8 rotations in longitude, mirrored latitude, mirrored "
          "longitude, reversed rows, reversed columns, transposed grid (thorough: all compositions; quick: up to two); sign, scales and rotations also with the Gaussian fit")
ASSUMPTIONS = ["the scores depend on the vertex at which a contour starts, so under reflections they are not compared and the criteria are wide open; "
               "the centre of a contour counts its first vertex twice: accepted within 4 radii / number of vertices"]


def groups(ctx):
    import numpy as np
    import xarray as xr

    ny, nx = 19, 26

    def grid(kind, lat0):
        h = 0.22
        i, j = np.arange(nx) - (nx - 1) / 2, np.arange(ny) - (ny - 1) / 2
        if kind == "uneven":
            x, y = h * (i + 0.01 * i * abs(i)), lat0 + h * (j + 0.012 * j * j)
            return np.meshgrid(x, y)
        U, V = np.meshgrid(h * i, h * j)
        if kind == "rotated":
            return 0.8 * U - 0.6 * V, lat0 + 0.6 * U + 0.8 * V
        if kind == "curved":
            return U - 0.25 * V + 0.02 * U * V, lat0 + 0.2 * U + V + 0.015 * U * U
        return U, lat0 + V

    def field(name, X, Y, lat0):
        V = Y - lat0
        if name == "one":
            return gauss(X, V, 0.07, -0.05, 0.5, 0.4)
        if name == "slanted":
            return gauss(X, V, -0.13, 0.16, 0.66, 0.42, 0.6)
        if name == "pair":
            return gauss(X, V, -1.03, 0.07, 0.44, 0.38) - 0.9 * gauss(X, V, 1.11, -0.26, 0.4, 0.49)
        if name == "three":
            return (gauss(X, V, -1.31, 0.57, 0.33, 0.35) - 0.8 * gauss(X, V, 1.21, -0.56, 0.41, 0.33)
                    + 0.85 * gauss(X, V, 0.73, 0.93, 0.3, 0.4, 0.3) + 0.01 * X)
        if name == "square":
            return np.exp(-((X - 0.1) / 0.7) ** 4 - ((V + 0.12) / 0.63) ** 4)
        return gauss(X, V, 0.21, 0.13, 0.38, 0.45) + 0.15 * np.sin(2.1 * X + 1.3 * V)

    GENERATORS = {
        "negate": lambda f, X, Y, l: (-f, X, Y, -l),
        "mirror_lat": lambda f, X, Y, l: (f, X, -Y, l),
        "mirror_lon": lambda f, X, Y, l: (f, -X, Y, l),
        "rows": lambda f, X, Y, l: (f[::-1], X[::-1], Y[::-1], l),
        "columns": lambda f, X, Y, l: (f[:, ::-1], X[:, ::-1], Y[:, ::-1], l),
        "transpose": lambda f, X, Y, l: (f.T, X.T, Y.T, l),
    }
    for c in (1e-10, 1e-14, 1e-3, 0.25, 3.0, 1e6, 0.5):
        GENERATORS["scale %g" % c] = lambda f, X, Y, l, c=c: (f * c, X, Y, l * c)
    for d in (-170.0, -60.0, 0.5, 40.0, 119.0, 180.0, 230.0, 358.0):
        GENERATORS["shift %g" % d] = lambda f, X, Y, l, d=d: (f, X + d, Y, l)

    def detect(f, X, Y, level, t, skip=True):
        f, X, Y = (np.ascontiguousarray(a) for a in (f, X, Y))
        tr = load(tracker(dataset(f, X, Y), skip=skip, criteria={"ellipse_fit": 1.0, "eccentricity": 0.9, "gaussian_fit": 0.8 if skip else 0.5}))
        res = eddies(tr._detect_one_level(level)[0])
        t.op()
        return res

    def image(e, ops):
        """What an eddy becomes under the symmetries."""
        e = dict(e)
        for op in ops:
            if op == "negate":
                for k in ("level", "maxima", "eddy_sign"):
                    e[k] = -e[k]
            elif op == "mirror_lat":
                for k in ("contour_y", "maxima_y", "ellipse_params_theta"):
                    e[k] = -e[k]
            elif op == "mirror_lon":
                for k in ("contour_x", "maxima_x", "ellipse_params_theta"):
                    e[k] = -e[k]
            elif op.startswith("scale"):
                for k in ("level", "maxima"):
                    e[k] *= float(op.split()[1])
            elif op.startswith("shift"):
                for k in ("contour_x", "maxima_x"):
                    e[k] += float(op.split()[1])
        return e

    def same(a, b):
        n = len(a["path"])
        if n != len(b["path"]):
            return "%d vertices instead of %d" % (len(b["path"]), n)
        for k in ("level", "maxima"):
            if abs(a[k] - b[k]) > 1e-6 * abs(a[k]):
                return "%s %r instead of %r" % (k, b[k], a[k])
        for k in ("maxima_x", "maxima_y", "eddy_sign"):
            if abs(a[k] - b[k]) > 1e-6 * max(1e-3, abs(a[k])) + 1e-9:
                return "%s %r instead of %r" % (k, b[k], a[k])
        for k in ("area_eddy", "radius_eddy"):
            if abs(a[k] - b[k]) > (20.0 if abs(a["maxima_y"]) < 3 else 3.0) / n ** 2 * abs(a[k]):
                return "%s %r instead of %r" % (k, b[k], a[k])
        r = math.degrees(a["radius_eddy"] / 6371.0) * 1.5
        tol = 4 * r / n / max(0.2, math.cos(math.radians(a["maxima_y"])))
        for k in ("contour_x", "contour_y"):
            if abs(a[k] - b[k]) > tol:
                return "%s %r instead of %r" % (k, b[k], a[k])
        for k in ("ellipse_params_a", "ellipse_params_b"):
            if abs(a[k] - b[k]) > 0.1 * abs(a[k]):
                return "%s %r instead of %r" % (k, b[k], a[k])
        if abs(a["ellipse_eccen"] - b["ellipse_eccen"]) > 0.08 and a["ellipse_eccen"] > 0.5:
            return "eccentricity %r instead of %r" % (b["ellipse_eccen"], a["ellipse_eccen"])
        if a["ellipse_eccen"] > 0.65:
            d = (a["ellipse_params_theta"] - b["ellipse_params_theta"]) % math.pi
            if min(d, math.pi - d) > 0.12:
                return "orientation %r instead of %r" % (b["ellipse_params_theta"], a["ellipse_params_theta"])
        return None

    base = {}

    def decide(case, t):
        name, kind, lat0, level, ops = case
        X, Y = grid(kind, lat0)
        f = field(name, X, Y, lat0)
        key = case[:4]
        if key not in base:
            base[key] = detect(f, X, Y, level, t)
        args = (f, X, Y, level)
        for op in ops:
            args = GENERATORS[op](*args)
        got = detect(*args, t)
        want = [image(e, ops) for e in base[key]]
        if not want:
            t.trivial()
        t.state(key, sorted((round(e["area_eddy"], 4), round(e["maxima_x"], 6)) for e in got))
        t.check(len(got) == len(want), "%r: %d eddies instead of %d", case, len(got), len(want))
        rest = list(got)
        for e in want:
            why = []
            for g in rest:
                d = same(e, g)
                if d is None:
                    rest.remove(g)
                    break
                why.append(d)
            else:
                t.check(False, "%r: no eddy like the one at (%r, %r): %r", case, e["maxima_x"], e["maxima_y"], why)
            t.check(True, "")

    names = ("one", "slanted", "pair", "three", "square", "wavy")
    kinds = ("regular", "uneven", "rotated", "curved")
    lats = (0.0, 12.0, 37.0, -55.0)
    ops = list(GENERATORS)
    cases = []
    for name in names:
        for kind in kinds:
            for lat0 in lats:
                for level in ctx.pick((0.2, 0.35, -0.35), (0.2, 0.35, 0.55, -0.35, -0.2)):
                    if level < 0 and name not in ("pair", "three", "wavy"):
                        continue
                    seqs = [(o,) for o in ops]
                    reflections = ops[:6]
                    if ctx.thorough:
                        seqs += list(itertools.combinations(ops, 2))
                        seqs += list(itertools.combinations(reflections, 3)) + [tuple(reflections)]
                    elif level > 0 and lat0 > 0:
                        seqs += list(itertools.combinations(reflections, 2))
                    cases += [(name, kind, lat0, level, s) for s in seqs]
    yield Group("symmetries", cases, decide)

    def fitted(case, t):
        """The symmetries that keep the order of the points, with the Gaussian fit."""
        name, kind, lat0, level, ops = case
        X, Y = grid(kind, lat0)
        f = field(name, X, Y, lat0)
        key = case[:4] + ("fit",)
        if key not in base:
            base[key] = detect(f, X, Y, level, t, skip=False)
        args = (f, X, Y, level)
        for op in ops:
            args = GENERATORS[op](*args)
        got = detect(*args, t, skip=False)
        want = [image(e, ops) for e in base[key]]
        t.check(want, "%r: no eddy to start from", case)
        t.state(key, sorted((round(e["area_eddy"], 4), round(e["maxima_x"], 6)) for e in got))
        t.check(len(got) == len(want), "%r: %d eddies instead of %d", case, len(got), len(want))
        for a, b in zip(want, got):
            d = same(a, b)
            t.check(d is None, "%r: %s", case, d)
            t.check(abs(a["contour_gaussian_error"] - b["contour_gaussian_error"]) < 0.06, "%r: score of the Gaussian %r instead of %r",
                    case, b["contour_gaussian_error"], a["contour_gaussian_error"])
            for k in ("x", "y", "sigma_x", "sigma_y"):
                k = "gaussian_params_" + k
                w = a[k] + (sum(float(o.split()[1]) for o in ops if o.startswith("shift")) if k == "gaussian_params_x" else 0)
                t.check(abs(b[k] - w) < 0.05, "%r: %s %r instead of %r", case, k, b[k], w)

    still = ["negate"] + [o for o in ops if o.startswith(("scale", "shift"))]
    yield Group("fitted", [(name, kind, lat0, level, s) for name in names[:4] for kind in kinds for lat0 in ctx.pick((12.0, -55.0), lats)
                           for level in ctx.pick((0.35,), (0.2, 0.35, 0.55, -0.35)) if level > 0 or name in ("pair", "three")
                           for s in [(o,) for o in still] + ctx.pick([], list(itertools.combinations(still, 2)))], fitted)
