"""C06: the Gaussian surface and its fit."""
import math

from mc.core import Group
from mc.world import gauss

BOUNDS = ("surfaces: 5 centres x 4 widths x 13 orientations x 4 amplitudes x 3 meshes; fits: every combination of "
          "initial-guess errors (-40%, 0, 40%) of both widths and of the orientation, centre off by 0/+-0.4 of a cell, "
          "both signs, increasing/decreasing/uneven/curvilinear coordinates, complete and masked data; 10 amplitudes from 1e-10 to 1e6")
ASSUMPTIONS = ["recovered: the surface within 10% of the amplitude, the centre within 0.09 (a third of a cell), the covariance of the surface within 35%; "
               "the worst of the unchanged code are about half of these"]


def groups(ctx):
    import numpy as np
    from trackeddy.eddy import Eddy
    from trackeddy.geometry import Fit_Surface, gaussian

    def mesh(kind, cx=0.0, cy=0.0, n=15):
        x, y = np.linspace(-2, 2, n) + cx, np.linspace(-1.7, 1.9, n + 3) + cy
        if kind == "uneven":
            # much finer at its first rows and columns than elsewhere
            x = cx + np.r_[np.linspace(-2, -1.9, 4), np.linspace(-1.7, 2, n - 4)]
            y = cy + np.r_[np.linspace(-1.7, -1.6, 4), np.linspace(-1.4, 1.9, n - 1)]
        if kind == "uneven_end":
            x = cx - np.r_[np.linspace(-2, -1.9, 4), np.linspace(-1.7, 2, n - 4)][::-1]
            y = cy - np.r_[np.linspace(-1.7, -1.6, 4), np.linspace(-1.4, 1.9, n - 1)][::-1]
        if kind == "descending":
            x, y = x[::-1], y[::-1]
        elif kind == "desc_y":
            y = y[::-1]
        X, Y = np.meshgrid(x, y)
        if kind == "curvilinear":
            U, V = X - cx, Y - cy
            X, Y = cx + 0.9 * U - 0.3 * V, cy + 0.25 * U + V + 0.03 * U * V
        return X, Y

    def surface(case, t):
        kind, cx, cy, sx, sy, th, amp = case
        X, Y = mesh(kind, cx, cy)
        g = np.asarray(gaussian((X, Y, amp), cx + 0.1, cy - 0.2, sx, sy, th))
        t.op()
        t.state(np.round(g, 6))
        want = gauss(X, Y, cx + 0.1, cy - 0.2, sx, sy, th, amp)
        t.check(g.size == X.size, "surface of %r points for %r", g.size, X.size)
        t.check(np.allclose(g.ravel(), want.ravel(), rtol=1e-9, atol=1e-12), "surface differs from the Gaussian by %r",
                float(np.abs(g.ravel() - want.ravel()).max()))

    def err(data, fit):
        d = np.abs(data - fit)
        return float(np.nanstd(d) * np.nanmean(d))

    def cov(sx, sy, th):
        """Covariance: the same for both ways of naming the axes of a Gaussian."""
        R = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
        return R @ np.diag([sx * sx, sy * sy]) @ R.T

    def fit(case, t):
        kind, sign, sx, sy, th, ea, eb, eth, off, masked = case
        cx, cy = 20.0, -15.0
        X, Y = mesh(kind, cx, cy)
        # extremum on the node nearest to the centre, as found by the detection
        k = np.argmin(np.abs(X - cx) + np.abs(Y - cy))
        mx, my = X.ravel()[k], Y.ravel()[k]
        h = 4 / 14 * off
        true = (mx + h, my - h, sx, sy, th)
        data = gauss(X, Y, *true, amp=sign)
        if masked:
            c, s = math.cos(th), math.sin(th)
            u, v = (X - mx) * c + (Y - my) * s, -(X - mx) * s + (Y - my) * c
            data = np.where((u / sx) ** 2 + (v / sy) ** 2 <= 2.0, data, np.nan)
        e = Eddy(None, 0.5 * sign)
        peak = np.sign(sign) * np.nanmax(np.sign(sign) * data)
        e.eddy_maxima = np.array([[peak], [my], [mx]])
        init = np.array([mx, my, sx * (1 + ea), sy * (1 + eb), th * (1 + eth)])
        e.ellipse_params = init[2:].copy()
        keep = data.copy()
        F = Fit_Surface(e, data, X, Y)
        got, p = F._fitting()
        t.op()
        got, p = np.asarray(got), np.asarray(p, float)
        t.state(np.round(p, 5))
        t.check(np.array_equal(keep, data, equal_nan=True), "the data was modified by the fit")
        t.check(got.shape == X.shape and p.shape == (5,), "shapes %r %r", got.shape, p.shape)
        t.check(np.isfinite(p).all(), "fitted parameters %r", p)
        t.check(np.allclose(got, gauss(X, Y, *p, amp=peak), rtol=1e-8, atol=1e-10 * abs(sign)),
                "the fitted surface is not the Gaussian of the fitted parameters %r", p)
        dx = abs(float(np.mean(np.diff(X, axis=1))))
        dy = abs(float(np.mean(np.diff(Y, axis=0))))
        t.check(abs(p[0] - mx) <= dx + 1e-9 and abs(p[1] - my) <= dy + 1e-9,
                "fitted centre %r more than a cell from the extremum %r", p[:2], (mx, my))
        for i, name in ((2, "sigma_x"), (3, "sigma_y"), (4, "theta")):
            lim = 0.7 * abs(init[i]) if init[i] else 1e-4
            t.check(abs(p[i] - init[i]) <= lim + 1e-9, "fitted %s %r further than 70%% from the guess %r", name, p[i], init[i])
        e0, e1 = (err(keep / abs(sign), v / abs(sign)) for v in (gauss(X, Y, *init, amp=peak), got))
        t.check(e1 <= e0 * (1 + 1e-9) + 1e-15, "the fit (error %r) is worse than its initial guess (%r)", e1, e0)
        # the scalar residual stops at an error of a few per cent
        worst = float(np.nanmax(np.abs(keep - got))) / abs(sign)
        t.check(worst <= 0.1, "the fitted surface is %r of the amplitude away from the data", worst)
        t.check(np.hypot(p[0] - true[0], p[1] - true[1]) <= 0.09, "fitted centre %r instead of %r", p[:2], true[:2])
        C, C0 = cov(*p[2:]), cov(sx, sy, th)
        t.check(np.abs(C - C0).max() <= 0.35 * np.abs(C0).max(), "fitted widths and orientation %r instead of %r", p[2:], (sx, sy, th))
        if (ea or eb) and not off:
            t.check(e1 <= 0.5 * e0 + 1e-12, "the fit (error %r) does not improve the guess (%r)", e1, e0)

    ths = [k * math.pi / 12 for k in range(-6, 7)]
    yield Group("surface", [(k, cx, cy, sx, sy, th, a) for k in ("regular", "descending", "curvilinear")
                            for cx, cy in ((0, 0), (5, -3), (-170, 60), (300, -75), (0, 12))
                            for sx, sy in ((1, 1), (1.5, 0.6), (0.5, 1.3), (3, 0.2)) for th in ths
                            for a in (1, -1, 0.01, 40)], surface)
    E = (-0.4, 0, 0.4)
    shapes = ctx.pick(((0.8, 0.6, 0.5), (0.9, 0.5, -1.0), (0.6, 0.6, 0.0)),
                      ((0.8, 0.6, 0.5), (0.9, 0.5, -1.0), (0.6, 0.6, 0.0), (1.1, 0.8, 1.5), (0.8, 0.5, -0.2)))
    yield Group("fit", [(k, s, sx, sy, th, ea, eb, et, off, m) for k in ("regular", "descending", "desc_y", "uneven", "uneven_end", "curvilinear")
                        for s in (1, -1) for sx, sy, th in shapes for ea in E for eb in E for et in (E if th else (0,))
                        for off in (0, 0.4) for m in (False, True)], fit)
    yield Group("amplitudes", [(k, s, sx, sy, th, ea, eb, et, off, m) for k in ("regular", "desc_y")
                               for s in (-0.3, 0.05, 0.1, 1e-3, -1e-4, 1e-10, 7.0, -40.0, 1e3, 1e6) for sx, sy, th in shapes[:2] for ea in E for eb in E
                               for et in ctx.pick((0.4,), E) for off in (0, 0.4) for m in ctx.pick((True,), (False, True))], fit)
