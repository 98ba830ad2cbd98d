"""C03: the ellipse fitted to a contour is the ellipse of the contour."""
import math

from mc.core import Group

BOUNDS = ("centres {-170..350}x{-70..70}, 6 axis ratios x 4 sizes, 26 orientations, 5..400 points, 4 starting "
          "phases, both directions, open and closed sampling; similarity transforms (rotation, "
          "translation, scaling) of 6 non elliptical contours; 5 sets of points with exact coordinates on 5 ellipses")
ASSUMPTIONS = ["ellipses whose cross term is below 2e-3 of the squared terms (nearly aligned with an axis, or nearly round) "
               "may be taken as aligned to the axes (tolerance 0.5% of the axes there, 1e-6 elsewhere)"]


def groups(ctx):
    import numpy as np
    from trackeddy.geometry import eccentricity, fit_ellipse

    def ellipse(cx, cy, a, b, th, n, phase, direction, closed):
        R = np.arange(n) * 2 * np.pi / n
        if closed:
            R = np.append(R, 0.0)
        R = direction * R + phase
        u, v = a * np.cos(R), b * np.sin(R)
        return cx + u * math.cos(th) - v * math.sin(th), cy + u * math.sin(th) + v * math.cos(th)

    def axis_diff(t1, t2):
        d = (t1 - t2) % math.pi
        return min(d, math.pi - d)

    def decide(case, t):
        cx, cy, a, b, th, n, phase, direction, closed = case
        x, y = ellipse(*case)
        x0, y0 = x.copy(), y.copy()
        path, params = fit_ellipse(x, y)
        t.op()
        t.state(np.round(params, 6), np.round(path[:3], 6))
        path = np.asarray(path)
        t.check((x == x0).all() and (y == y0).all(), "the input contour was modified")
        t.check(path.shape == (len(x), 2), "fitted contour of shape %r for %d points", path.shape, len(x))
        # cross term of the ellipse relative to its squared terms
        c, s = math.cos(th), math.sin(th)
        A, C = (c / a) ** 2 + (s / b) ** 2, (s / a) ** 2 + (c / b) ** 2
        B = abs(2 * s * c * (1 / a ** 2 - 1 / b ** 2))
        loose = 1e-14 < min(B / A, B / C) < 2e-3
        scale = 1 + max(abs(cx), abs(cy)) / b
        tol = 5e-3 if loose else 1e-6 + 1e-11 * scale ** 2
        pa, pb, pth = (float(v) for v in params)
        t.check(abs(pa - a) <= tol * a, "major axis %r instead of %r", pa, a)
        t.check(abs(pb - b) <= tol * a, "minor axis %r instead of %r", pb, b)
        t.check(pa >= pb, "major axis %r smaller than minor axis %r", pa, pb)
        t.check(math.isfinite(pth), "orientation %r", pth)
        if b < 0.98 * a:
            t.check(axis_diff(pth, th) <= (1e-2 if loose else 1e-5 + 1e-9 * scale ** 2),
                    "orientation %r instead of %r", pth, th)
        # every fitted point is on the true ellipse, the points go round once, and
        # the contour is closed
        dx, dy = path[:, 0] - cx, path[:, 1] - cy
        u = dx * math.cos(th) + dy * math.sin(th)
        v = -dx * math.sin(th) + dy * math.cos(th)
        rad = np.hypot(u / a, v / b)
        t.check(np.abs(rad - 1).max() <= (2e-2 if loose else 1e-5 + 1e-10 * scale ** 2),
                "the fitted contour is off the ellipse by %r", float(np.abs(rad - 1).max()))
        ang = np.unwrap(np.arctan2(v / b, u / a))
        t.check(abs(abs(ang[-1] - ang[0]) - 2 * np.pi) < 1e-3, "the fitted contour goes round %r", ang[-1] - ang[0])
        t.check(np.allclose(path[0], path[-1], atol=1e-6 * a), "the fitted contour is not closed")
        ecc = float(eccentricity(pa, pb))
        t.op()
        t.check(abs(ecc ** 2 - (1 - (pb / pa) ** 2)) < 1e-12 and 0 <= ecc < 1,
                "eccentricity %r of axes %r %r", ecc, pa, pb)

    shapes = {
        "square": [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)],
        "rect": [(-3, -1), (-1, -1.1), (1, -1), (3, -1), (3, 1), (1, 1), (-1, 1), (-3, 1), (-3, -1)],
        "tri": [(0, 0), (2, 0.1), (4, 0), (3, 1.5), (2, 3), (1, 1.6), (0, 0)],
        "L": [(0, 0), (2, 0), (4, 0), (4, 1), (2, 1.2), (1, 1.1), (1, 3), (0, 3), (0, 1.5), (0, 0)],
        "drop": [(0, 0), (1, 1), (2, 1.4), (3, 1.2), (3.4, 0), (3, -1.1), (2, -1.3), (1, -0.9), (0, 0)],
        "six": [(1, 0), (0.5, 0.8), (-0.5, 0.9), (-1.1, 0), (-0.5, -0.8), (0.6, -0.9), (1, 0)],
    }

    def equivariant(case, t):
        name, rot, scale, dx, dy = case
        p = np.array(shapes[name], float)
        base, bp = fit_ellipse(p[:, 0], p[:, 1])
        c, s = math.cos(rot), math.sin(rot)
        M = scale * np.array([[c, -s], [s, c]])
        q = p @ M.T + [dx, dy]
        path, params = fit_ellipse(q[:, 0], q[:, 1])
        t.op(2)
        t.state(np.round(params, 5))
        tol = 2e-2
        t.check(abs(params[0] / scale - bp[0]) <= tol * bp[0] and abs(params[1] / scale - bp[1]) <= tol * bp[1],
                "axes %r of the transformed contour, %r of the original, scale %r", params[:2], bp[:2], scale)
        if bp[1] < 0.9 * bp[0]:
            t.check(axis_diff(params[2], bp[2] + rot) <= 2e-2, "orientation %r instead of %r + %r",
                    params[2], bp[2], rot)
        want = (np.asarray(base)).mean(0) @ M.T + [dx, dy]
        t.check(np.allclose((path.max(0) + path.min(0)) / 2, np.asarray(path)[:, :].mean(0), atol=scale * 3),
                "centre of the fitted contour")
        t.check(np.linalg.norm(path[:-1].mean(0) - (base[:-1].mean(0) @ M.T + [dx, dy])) <= 0.05 * scale * bp[0],
                "centre %r of the fit of the transformed contour instead of %r", path[:-1].mean(0), want)

    def exact(case, t):
        """Points on an ellipse, with coordinates without any rounding."""
        k, cx, cy, fx, fy, closed, turn = case
        p = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
        p = [p[i] for i in {"all": range(12), "half": range(0, 12, 2), "axes": (0, 3, 6, 9), "corners": (1, 2, 4, 5, 7, 8, 10, 11),
                            "uneven": (0, 1, 2, 3, 5, 8)}[k]]
        p = p[turn:] + p[:turn] + ([p[turn]] if closed else [])
        q = np.array(p, float) * [fx, fy] + [cx, cy]
        path, params = fit_ellipse(q[:, 0], q[:, 1])
        t.op()
        t.check(np.isfinite(params).all() and np.isfinite(path).all(), "%r: parameters %r", case, params)
        t.state(np.round(params, 6))
        if k == "axes":     # many ellipses go through 4 points
            return
        want = 5 * max(fx, fy), 5 * min(fx, fy)
        t.check(np.allclose(params[:2], want, rtol=1e-6), "%r: axes %r instead of %r", case, params[:2], want)
        if fx != fy:
            t.check(axis_diff(params[2], 0 if fx > fy else math.pi / 2) < 1e-5, "%r: orientation %r", case, params[2])
        mid = (path.max(0) + path.min(0)) / 2
        t.check(np.hypot(*((path - [cx, cy]) / [fx, fy]).T).max() < 5.0001, "%r: fitted contour around %r", case, mid)

    def ecc(case, t):
        a, b = case
        e = float(eccentricity(a, b))
        t.op()
        t.state(e)
        t.check(abs(e ** 2 - (1 - (b / a) ** 2)) < 1e-12, "eccentricity(%r, %r) = %r", a, b, e)

    ths = [0.0, math.pi / 2, math.pi / 4, -math.pi / 4] + [k * math.pi / 12 + 0.02 for k in range(-6, 7)] + [
        1e-3, -1e-3, 1e-4, math.pi / 2 - 1e-3, 2.9e-3, -2.9e-3, 0.01, -0.01, 1.56]
    centres = [(0, 0), (12, 0), (0, -30), (200, 40), (-170, -70), (350, 70)]
    yield Group("ellipses", [(cx, cy, a, a * r, th, n, 0.3, 1, True) for cx, cy in centres
                             for a in (0.05, 0.7, 2.0, 9.0) for r in (1.0, 0.99, 0.8, 0.52, 0.3, 0.1) for th in ths
                             for n in (12, 37)], decide)
    yield Group("sampling", [(cx, cy, a, 0.6 * a, th, n, ph, d, cl) for cx, cy in ((5, 3), (120, -40))
                             for a in (0.3, 2.0) for th in (0.0, 0.4, math.pi / 2, -1.0)
                             for n in (6, 7, 8, 9, 15, 64, 150, 400) for ph in (0.0, 0.7, 2.0, 3.9)
                             for d in (1, -1) for cl in (True, False)], decide)
    yield Group("equivariance", [(n, r * math.pi / 12 + 0.013, s, dx, dy) for n in shapes for r in range(-12, 13)
                                 for s in (0.01, 0.3, 1, 5) for dx, dy in ((0, 0), (30, -20), (-100, 60))], equivariant)
    yield Group("exact", [(k, cx, cy, fx, fy, c, r) for k in ("all", "half", "axes", "corners", "uneven") for cx, cy in ((0, 0), (16, -8), (-120, 60))
                          for fx, fy in ((1, 1), (0.25, 0.25), (1, 0.5), (0.5, 1), (2, 1.5)) for c in (True, False) for r in range(4)], exact)
    yield Group("eccentricity", [(a / 7, a / 7 * (b / 40)) for a in range(1, 60) for b in range(1, 41)], ecc)
    if ctx.thorough:
        yield Group("ellipses_dense", [(cx, cy, a, a * r, k * math.pi / 90 + 0.0007, n, ph, 1, True)
                                       for cx, cy in centres for a in (0.05, 0.3, 0.7, 2.0, 9.0)
                                       for r in (1.0, 0.95, 0.8, 0.65, 0.52, 0.4, 0.3, 0.2, 0.1)
                                       for k in range(-45, 46) for n in (10, 12, 24, 37) for ph in (0.0, 1.1)], decide)
