"""C22: an eddy depends on the field around it only."""
import itertools

from mc.core import Group
from mc.world import dataset, eddies, gauss, load, match, tracker

BOUNDS = ("2 fields of 4 and 5 eddies on a 26x34 grid: every value of the field changed alone in four ways (quick: two, the second on every other point), every crop between 9 row and 9 column limits, every "
          "subset of the eddies removed, every pair of exchanged far values; with and without the Gaussian fit, 1D and 2D coordinates")
ASSUMPTIONS = ["around: the bounding box of the contour and one grid point more; for crops, extended by half its size and at least 4 grid points"]


def groups(ctx):
    import numpy as np

    ny, nx = 26, 34
    x, y = np.linspace(40, 46.6, nx), np.linspace(-22, -17, ny)
    X, Y = np.meshgrid(x, y)
    PARTS = {0: [gauss(X, Y, 41.13, -20.87, 0.32, 0.36), -gauss(X, Y, 43.27, -20.97, 0.33, 0.29), gauss(X, Y, 45.47, -20.73, 0.36, 0.3),
                 -gauss(X, Y, 41.37, -18.23, 0.3, 0.34), gauss(X, Y, 44.73, -18.29, 0.37, 0.31)],
             1: [gauss(X, Y, 41.53, -20.47, 0.47, 0.42), -gauss(X, Y, 44.87, -20.57, 0.42, 0.47), gauss(X, Y, 44.57, -18.13, 0.36, 0.3),
                 -gauss(X, Y, 41.83, -18.03, 0.36, 0.34)]}
    LEVELS = (0.4, -0.4)
    KEYS = None

    def detect(f, level, skip, coords, t, xs=None, ys=None):
        xs, ys = x if xs is None else xs, y if ys is None else ys
        ds = dataset(f, *np.meshgrid(xs, ys)) if coords == "2D" else dataset(f, xs, ys)
        tr = load(tracker(ds, skip=skip, criteria={"ellipse_fit": 1.0}))
        es = eddies(tr._detect_one_level(level)[0])
        t.op()
        return es

    def box(e, m=None):
        """Rows and columns of the neighbourhood of an eddy (half open)."""
        p = e["path"]
        c0, c1 = int(np.searchsorted(x, p[:, 0].min())) - 1, int(np.searchsorted(x, p[:, 0].max())) + 1
        r0, r1 = int(np.searchsorted(y, p[:, 1].min())) - 1, int(np.searchsorted(y, p[:, 1].max())) + 1
        m = max(4, int(0.5 * max(c1 - c0, r1 - r0)) + 1) if m is None else m
        return max(0, r0 - m), min(ny, r1 + m), max(0, c0 - m), min(nx, c1 + m)

    base = {}

    def reference(k, level, skip, coords, t):
        key = k, level, skip, coords
        if key not in base:
            base[key] = [(e, box(e)) for e in detect(sum(PARTS[k]), level, skip, coords, t)]
        return base[key]

    def compare(want, got, t, case, level):
        """Each of these eddies is detected, unchanged."""
        rest = list(got)
        for e in want:
            near = [g for g in rest if abs(g["contour_x"] - e["contour_x"]) < 1e-3 and abs(g["contour_y"] - e["contour_y"]) < 1e-3]
            t.check(near, "%r: the eddy at (%r, %r) of level %r is not detected any more", case, e["maxima_x"], e["maxima_y"], level)
            d = match([e], near, "%r, level %r" % (case, level), rtol=1e-5, atol=1e-6)
            t.check(d is None, "an eddy changed: %s", d)
            rest.remove(near[0])
        return rest

    def inside_box(b, j, i):
        return b[0] <= j < b[1] and b[2] <= i < b[3]

    def perturb(case, t):
        k, (j, i), delta, skip, coords = case
        f = sum(PARTS[k])
        f[j, i] += delta
        n = 0
        for level in LEVELS:
            ref = reference(k, level, skip, coords, t)
            t.check(len(ref) >= 2, "%d eddies to start from at level %r", len(ref), level)
            want = [e for e, b in ref if not inside_box(box(e, 1), j, i)]
            n += len(want)
            got = detect(f, level, skip, coords, t)
            rest = compare(want, got, t, case, level)
            # nothing new appears away from the point
            for e in rest:
                b = box(e)
                t.check(inside_box(b, j, i), "%r: a new eddy at (%r, %r)", case, e["maxima_x"], e["maxima_y"])
            t.state(k, level, [(round(e["maxima"], 6), round(e["area_eddy"], 2)) for e in got])
        if not n:
            t.trivial()

    pts = [(j, i) for j in range(ny) for i in range(nx)]
    cases = [(0, p, d, True, "1D") for p in pts for d in ctx.pick((0.9,), (0.9, -5.0, 90.0, -90.0))]
    cases += [(0, p, d, True, "1D") for p in pts for d in ctx.pick((-90.0,), ()) if ctx.thorough or (p[0] + p[1]) % 2]
    if ctx.thorough:
        cases += [(1, p, -0.7, True, "2D") for p in pts] + [(1, p, 0.7, False, "1D") for p in pts]
    else:
        cases += [(1, p, -0.7, False, "2D") for p in pts if p[0] % 6 == 1 and p[1] % 6 == 2]
    yield Group("values", cases, perturb)

    def crop(case, t):
        k, (r0, r1, c0, c1), skip, coords = case
        f = sum(PARTS[k])[r0:r1, c0:c1]
        n = 0
        for level in LEVELS:
            ref = reference(k, level, skip, coords, t)
            want = [e for e, b in ref if r0 <= b[0] and b[1] <= r1 and c0 <= b[2] and b[3] <= c1]
            n += len(want)
            got = detect(f, level, skip, coords, t, x[c0:c1], y[r0:r1])
            rest = compare(want, got, t, case, level)
            for e in rest:
                b = box(e)
                t.check(b[0] < r0 or b[1] > r1 or b[2] < c0 or b[3] > c1 or b[0] == 0 or b[1] == ny or b[2] == 0 or b[3] == nx,
                        "%r: a new eddy at (%r, %r)", case, e["maxima_x"], e["maxima_y"])
            t.state(k, level, [(round(e["maxima"], 6), round(e["area_eddy"], 2)) for e in got])
        if not n:
            t.trivial()

    rows, cols = ctx.pick((0, 2, 4, 12, 15, 20, 24, 26), (0, 1, 2, 3, 5, 10, 12, 14, 16, 20, 22, 24, 26)), \
        ctx.pick((0, 3, 9, 14, 19, 25, 31, 34), (0, 2, 4, 6, 9, 12, 14, 16, 19, 22, 25, 28, 31, 34))
    crops = [(a, b, c, d) for a, b in itertools.combinations(rows, 2) if b - a >= 4 for c, d in itertools.combinations(cols, 2) if d - c >= 4]
    yield Group("crops", [(0, c, True, "1D") for c in crops] + [(1, c, True, "2D") for c in crops if ctx.thorough]
                + [(1, c, False, "1D") for c in crops if ctx.thorough], crop)

    def subset(case, t):
        k, keep, skip = case
        parts = PARTS[k]
        f = sum([p for n, p in enumerate(parts) if n in keep], np.zeros((ny, nx)))
        for level in LEVELS:
            got = detect(f, level, skip, "1D", t)
            want = [n for n in keep if parts[n].flat[abs(parts[n]).argmax()] * level > 0]
            t.check(len(got) == len(want), "%r, level %r: %d eddies instead of %d", case, level, len(got), len(want))
            for n in want:
                alone = detect(parts[n], level, skip, "1D", t)
                t.check(len(alone) == 1, "eddy %r alone is not detected", n)
                e = alone[0]
                near = [g for g in got if abs(g["maxima_x"] - e["maxima_x"]) + abs(g["maxima_y"] - e["maxima_y"]) < 1e-6]
                t.check(len(near) == 1, "%r: eddy %d is not where it is alone", case, n)
                # the others add a little to the field around it
                d = match([e], near, "%r: eddy %d" % (case, n), rtol=0.05, atol=0.02,
                          keys=["level", "area_eddy", "radius_eddy", "contour_x", "contour_y", "maxima", "eddy_sign", "maxima_x", "maxima_y"])
                t.check(d is None, "%s", d)
            t.state(k, level, keep, len(got))

    yield Group("subsets", [(k, s, skip) for k in PARTS for r in range(len(PARTS[k]) + 1) for s in itertools.combinations(range(len(PARTS[k])), r)
                            for skip in ctx.pick((True,), (True, False))], subset)
