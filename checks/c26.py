"""C26: moving eddies are tracked end to end, each by one track along its path."""
import itertools
import math

from mc.core import Group
from mc.world import dataset, eddies, inside, polygon_area, track, tracker

BOUNDS = ("surfaces: every size 1..9 x width x centre on a lattice reaching beyond the grid; tracks: every set of 1-3 of 5 paths (straight, diagonal, "
          "zigzag, standing, circling) x signs x 2 (thorough: 4) choices of levels x 3 grids, with and without Gaussian fit; one eddy in every direction "
          "of 16 at 4 speeds from 0 to 0.65 radii per step, along 3 latitudes")
ASSUMPTIONS = ["eddies stay 2.5 widths away from each other and 1.5 from the boundary, and move less than their radius per step",
               "extrema are those of the grid points, so positions are within one grid step"]


def groups(ctx):
    import numpy as np
    from trackeddy.generator.gaussian_field_functions import makeGaussian, moveGaussian

    def expected(size, fwhm, cx, cy):
        j, i = np.meshgrid(np.arange(size), np.arange(size))
        return 2.0 ** (-4 * ((j - cx) ** 2 + (i - cy) ** 2) / fwhm ** 2)

    def surface(case, t):
        size, fwhm, cx, cy = case
        if cx is None:
            got, c = makeGaussian(size, fwhm), (size // 2, size // 2)
        else:
            got, c = makeGaussian(size, fwhm, (cx, cy)), (cx, cy)
        want = expected(size, fwhm, *c)
        t.op()
        t.check(np.shape(got) == (size, size), "%r: shape %r", case, np.shape(got))
        t.check(np.allclose(got, want, rtol=1e-9, atol=1e-12), "%r: not the Gaussian of this width and centre: %r", case, got)
        t.state(np.round(want, 6).tobytes())

    spots = (-2, 0, 0.5, 3, 7.25)
    yield Group("surfaces", [(n, w, cx, cy) for n in range(1, 10) for w in (1, 3, 4.5, 20) for cx, cy in
                             list(itertools.product(spots, spots)) + [(None, None)]], surface)

    def moving(case, t):
        size, fwhm, n, order = case
        pts = [(0, 0), (size - 1, 1), (2.5, size + 1), (-1, 3)]
        centres = np.array([pts[(k * order + 1) % 4] for k in range(n)], float).reshape(n, 2)
        keep = centres.copy()
        got = moveGaussian(size, fwhm, centres, n)
        t.op()
        t.check(np.shape(got) == (n, size, size), "%r: shape %r", case, np.shape(got))
        for k in range(n):
            t.check(np.allclose(got[k], expected(size, fwhm, *keep[k]), rtol=1e-9, atol=1e-12), "%r: step %d isn't at %r", case, k, keep[k])
        t.check(np.array_equal(centres, keep), "%r: the centres were modified", case)
        t.state(size, fwhm, n, order)

    yield Group("steps", list(itertools.product((1, 2, 5, 8), (2, 5.5), (1, 2, 3, 4, 7), (1, 2, 3))), moving)

    # ---- tracks

    SIZE, STEPS = 64, 5
    GRIDS = {"equator": (10.0, -3.1, 0.1), "middle": (-60.0, 27.0, 0.09), "south": (200.0, -37.0, 0.06), "high": (-3.0, 50.0, 0.03)}
    FWHM = 10.0
    PATHS = {"right": [(12 + 3 * k, 14 + 0 * k) for k in range(STEPS)],
             "diagonal": [(50 - 2.1 * k, 12 + 2.3 * k) for k in range(STEPS)],
             "zigzag": [(14 + 2 * (k % 2), 50 - 1.7 * (k % 3)) for k in range(STEPS)],
             "standing": [(33, 34) for k in range(STEPS)],
             "circling": [(49 + 2.5 * math.cos(k), 49 + 2.5 * math.sin(k)) for k in range(STEPS)]}
    LEVELS = {"one": (-0.5, 0.5), "more": (-0.6, -0.35, 0.35, 0.6), "zero": tuple(np.arange(-0.5, 0.6, 0.5)),
              "down": (0.6, 0.45, 0.3, -0.3, -0.45, -0.6)}

    def decide(case, data, paths, signs, grid, levels, skip, t):
        lon0, lat0, d = GRIDS[grid]
        x, y = lon0 + d * np.arange(SIZE), lat0 + d * np.arange(SIZE)
        res = track(tracker(dataset(data, x, y), skip=skip), np.array(levels))
        t.op(len(data))
        got = {}
        for e in eddies(res):
            got.setdefault(int(e["id"]), []).append(e)
        t.check(sorted(got) == list(range(len(paths))), "%r: %d tracks %r instead of %d", case, len(got),
                {k: [int(e["time"]) for e in v] for k, v in got.items()}, len(paths))
        free = list(range(len(paths)))
        for k, es in got.items():
            first = es[0]
            near = [p for p in free if abs((first["maxima_x"] - lon0) / d - paths[p][0][0]) <= 1.01
                    and abs((first["maxima_y"] - lat0) / d - paths[p][0][1]) <= 1.01]
            t.check(len(near) == 1, "%r: track %d starts at %r, where there is no eddy", case, k,
                    ((first["maxima_x"] - lon0) / d, (first["maxima_y"] - lat0) / d))
            p = near[0]
            free.remove(p)
            times = [int(e["time"]) for e in es]
            t.check(times == list(range(len(data))), "%r: the track of %r is seen at %r", case, paths[p], times)
            for e in es:
                cx, cy = paths[p][int(e["time"])]
                ex, ey = (e["maxima_x"] - lon0) / d, (e["maxima_y"] - lat0) / d
                t.check(max(abs(ex - cx), abs(ey - cy)) <= 0.51 + 1e-6 or data[int(e["time"])][round(ey), round(ex)] ==
                        signs[p] * np.max(signs[p] * data[int(e["time"])][max(0, int(cy) - 3):int(cy) + 4, max(0, int(cx) - 3):int(cx) + 4]),
                        "%r: at time %d the extremum is at %r instead of %r", case, e["time"], (ex, ey), (cx, cy))
                px, py = (e["contour_x"] - lon0) / d, (e["contour_y"] - lat0) / d
                t.check(max(abs(px - cx), abs(py - cy)) <= 0.5, "%r: at time %d the centre is at %r instead of %r", case, e["time"], (px, py), (cx, cy))
                t.check(e["eddy_sign"] == signs[p], "%r: sign %r instead of %r", case, e["eddy_sign"], signs[p])
                t.check(0.95 <= signs[p] * e["maxima"] <= 1.02, "%r: extremum %r", case, e["maxima"])
                r = 0.5 * FWHM * math.sqrt(math.log(1 / abs(e["level"]), 2))      # points, at the level
                lat = math.radians(lat0 + d * cy)
                want = math.pi * (r * d * math.pi / 180 * 6378.137) ** 2 * math.cos(lat)
                t.check(abs(e["area_eddy"] / want - 1) < 0.06, "%r: area %r instead of %r", case, e["area_eddy"], want)
        t.state([sorted((e["time"], e["level"]) for e in v) for v in got.values()])

    def tracks(case, t):
        names, signs, grid, levels, skip = case
        data = sum(s * moveGaussian(SIZE, FWHM, np.array(PATHS[p], float), STEPS) for p, s in zip(names, signs))
        decide(case, data, [PATHS[p] for p in names], signs, grid, LEVELS[levels], skip, t)

    cases = []
    for n in (1, 2, 3):
        for names in itertools.combinations(PATHS, n):
            for signs in itertools.product((1, -1), repeat=n):
                for grid in GRIDS:
                    for lev in LEVELS:
                        full = ctx.thorough
                        k = len(cases)
                        if full or (grid, lev) in (("equator", "zero"), ("middle", "more"), ("south", "down")):
                            cases.append((names, signs, grid, lev, True))
                        if full and grid != "high" or n == 1 and (grid, lev) == ("equator", "one"):
                            cases.append((names, signs, grid, lev, False))
    yield Group("tracks", cases, tracks)

    def direction(case, t):
        angle, speed, grid, sign = case
        a = 2 * math.pi * angle / 16
        path = [(31.3 + (k - 2) * speed * math.cos(a), 32.1 + (k - 2) * speed * math.sin(a)) for k in range(STEPS)]
        data = sign * moveGaussian(SIZE, FWHM, np.array(path), STEPS)
        # fits in the domain for the speeds below
        decide(case, data, [path], (sign,), grid, (0.5 * sign,), True, t)

    yield Group("directions", list(itertools.product(range(16), (0, 0.7, 2.2, 0.65 * FWHM / 2), ("equator", "middle", "south"), (1, -1))), direction)
