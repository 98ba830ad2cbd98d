"""C04: the area of a contour is its area on the sphere."""
import math

from mc.core import Group
from mc.world import polygon_area

BOUNDS = ("centres every 15-30 degrees of longitude in [-180, 360] and of latitude in [-75, 75] (and next to the poles), radii 0.1..9 degrees, "
          "aspect ratios 1 and 0.4, 16..400 vertices, both directions, 3 starting vertices, offsets of 360 degrees")
ASSUMPTIONS = ["edges are short: the accepted error is 8/n^2 for n vertices around the contour",
               "sphere of radius 6378.137 km, as used by the code"]


def groups(ctx):
    import numpy as np
    from trackeddy.geometry import area_latlon_polygon

    def shape(lon, lat, r, ratio, n, phase=0.3):
        R = np.linspace(0, 2 * np.pi, n + 1) + phase
        p = np.c_[lon + r * np.cos(R), lat + ratio * r * np.sin(R)]
        p[-1] = p[0]
        return p

    def area(p, t):
        q = p.copy()
        a = area_latlon_polygon(p)
        t.op()
        t.check((p == q).all(), "the input contour was modified")
        t.check(np.ndim(a) == 0, "the area is not a single value: %r", a)
        a = float(a)
        t.state(round(a, 6))
        return a

    def decide(case, t):
        lon, lat, r, ratio, n = case
        if abs(lat) + r * max(ratio, 0) > (84 if abs(lat) <= 75 else 89.95):
            t.trivial()
            return
        p = shape(lon, lat, r, ratio, n)
        a = area(p, t)
        want = polygon_area(p)
        aspect = 1 / min(ratio, 1 / ratio)
        tol = 8.0 * aspect ** 2 / n ** 2 + 1e-7
        t.check(abs(a - want) <= tol * want, "area %r km2 instead of %r of %r", a, want, case)
        for name, q in (("reversed", p[::-1]), ("shifted 360", p + [360.0, 0.0]), ("shifted -360", p - [360.0, 0.0]),
                        ("mirrored in latitude", p * [1, -1]), ("mirrored in longitude", p * [-1, 1])):
            b = area(np.ascontiguousarray(q), t)
            t.check(abs(a - b) <= 1e-7 * want + 4e-9 * n, "area %r of the %s contour, %r of the original", b, name, a)
        for k in (n // 3, n - 1):
            body = np.roll(p[:-1], -k, axis=0)
            b = area(np.vstack([body, body[:1]]), t)
            t.check(abs(a - b) <= 1e-7 * want + 4e-9 * n, "area %r starting at vertex %d, %r at 0", b, k, a)

    def split(case, t):
        # areas add up: a cap cut in two
        lon, lat, r, n = case
        p = shape(lon, lat, r, 1.0, n, 0.0)[:-1]
        h = n // 2
        left = np.vstack([p[:h + 1], np.linspace(p[h], p[0], 80)[1:]])
        right = np.vstack([p[h:], p[:1], np.linspace(p[0], p[h], 80)[1:]])
        whole = area(np.vstack([p, p[:1]]), t)
        parts = area(left, t) + area(right, t)
        t.check(abs(whole - parts) <= 40.0 / n ** 2 * whole, "the parts of a contour have %r km2, the whole %r", parts, whole)

    lons = list(range(-180, 361, 30)) + [1, -2, 179, 181, 100.5, 359]
    lats = list(range(-75, 76, 15)) + [0.5, -1, 33]
    q = ctx.pick((24, 400), (16, 24, 48, 100, 400))
    yield Group("ellipses", [(lo, la, r, ra, n) for lo in lons for la in lats for r in (0.1, 1.0, 3.5, 9.0)
                             for ra in (1.0, 0.4) for n in q], decide)
    yield Group("split", [(lo, la, r, n) for lo in range(-150, 361, 30) for la in range(-60, 61, 15)
                          for r in (0.5, 3.0) for n in (60, 200)], split)
    yield Group("polar", [(lo, la, r, ra, n) for lo in lons for la in (-89.5, -88.0, -85.0, -81.0, 78.0, 83.5, 87.0, 88.9)
                          for r in (0.1, 0.4, 1.0, 3.0) for ra in (1.0, 0.4) for n in q], decide)
