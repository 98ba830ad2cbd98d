"""C17: missing data removes the eddies whose contour it cuts, and nothing else."""
import itertools

from mc.core import Group
from mc.world import dataset, eddies, gauss, is_empty, load, match, tables_equal, track, tracker

BOUNDS = ("one missing point at every node of a 17x24 grid (thorough: two grids, and every pair of nodes of a part), every rectangle of missing points "
          "on a lattice of corners, missing rows and columns, with 1D and 2D coordinates, 2 signs, with and without the Gaussian fit; "
          "filling (nan_treatment) with every filter compared with the field filled before, with missing points in each or every snapshot; snapshots without any data")
ASSUMPTIONS = ["a contour is cut where it crosses a mesh edge with a missing end; one that only crosses a cell with a missing corner may go either way", "missing points are NaN"]


def groups(ctx):
    import numpy as np

    nx, ny = 24, 17
    x, y = np.linspace(30, 34.6, nx), np.linspace(4, 7.2, ny)
    X, Y = np.meshgrid(x, y)
    fields = [gauss(X, Y, 31.13, 5.47, 0.5, 0.42) - gauss(X, Y, 33.47, 5.81, 0.41, 0.5) + 0.004 * X,
              gauss(X, Y, 31.37, 5.73, 0.3, 0.33) + gauss(X, Y, 33.23, 6.11, 0.28, 0.35) - gauss(X, Y, 32.33, 4.91, 0.31, 0.27) + 0.003 * Y]
    LEVELS = (0.3, 0.55, -0.3)
    base = {}

    def detect(f, level, skip, coords, t):
        ds = dataset(f, X, Y) if coords == "2D" else dataset(f, x, y)
        copy = ds.copy(deep=True)
        tr = load(tracker(ds, skip=skip, criteria={"ellipse_fit": 1.0, "gaussian_fit": 0.0}))
        es, lost = tr._detect_one_level(level)
        t.op()
        t.check(ds.identical(copy), "the dataset was modified")
        return eddies(es), lost

    def reference(k, level, skip, coords, t):
        key = (k, level, skip, coords)
        if key not in base:
            es, _ = detect(fields[k], level, skip, coords, t)
            for e in es:
                p = e["path"]
                mid = (p[1:] + p[:-1]) / 2
                e["cells"] = set(zip((np.searchsorted(y, mid[:, 1]) - 1).tolist(), (np.searchsorted(x, mid[:, 0]) - 1).tolist()))
                e["ends"] = set()      # of the mesh edges it crosses
                for px, py in p.tolist():
                    i, j = int(np.argmin(abs(x - px))), int(np.argmin(abs(y - py)))
                    if abs(x[i] - px) < 1e-9:
                        k0 = int(np.searchsorted(y, py))
                        e["ends"] |= {(k0 - 1, i), (k0, i)}
                    else:
                        k0 = int(np.searchsorted(x, px))
                        e["ends"] |= {(j, k0 - 1), (j, k0)}
                e["node"] = (int(np.argmin(abs(y - e["maxima_y"]))), int(np.argmin(abs(x - e["maxima_x"]))))
            base[key] = es
        return base[key]

    KEYS = ["level", "area_eddy", "radius_eddy", "contour_x", "contour_y", "eddy_sign", "ellipse_params_a", "ellipse_params_b",
            "ellipse_eccen"]

    def decide(case, t):
        k, nodes, skip, coords = case
        f = fields[k].copy()
        f[nodes] = np.nan
        bad = np.argwhere(np.isnan(f))
        cells = {(j - a, i - b) for j, i in bad.tolist() for a in (0, 1) for b in (0, 1)}
        gone = set(map(tuple, bad.tolist()))
        for level in LEVELS:
            before = reference(k, level, skip, coords, t)
            t.check(len(before) >= 1, "no eddies to start from at level %r", level)
            got, lost = detect(f, level, skip, coords, t)
            want = [e for e in before if not (e["cells"] & cells)]
            for e in before:
                # a missing corner of a crossed cell, at none of the crossed edges
                if e["cells"] & cells and not (e["ends"] & gone) and any(
                        abs(g["area_eddy"] - e["area_eddy"]) < 1e-6 * e["area_eddy"] for g in got):
                    want.append(e)
            d = match(want, got, "%r at level %r" % (case, level), keys=KEYS, rtol=1e-6)
            t.check(d is None, "missing points should leave the other eddies alone: %s", d)
            for e in got:
                w = min(want, key=lambda w: abs(w["area_eddy"] - e["area_eddy"]) + abs(w["contour_x"] - e["contour_x"]))
                j, i = int(np.argmin(abs(y - e["maxima_y"]))), int(np.argmin(abs(x - e["maxima_x"])))
                t.check((j, i) not in gone and e["maxima"] == f[j, i], "%r at level %r: the extremum %r at %r is not a value of the field",
                        case, level, e["maxima"], (e["maxima_x"], e["maxima_y"]))
                if w["node"] not in gone:
                    t.check(e["maxima"] == w["maxima"] and (j, i) == w["node"], "%r at level %r: extremum %r at %r instead of %r at %r",
                            case, level, e["maxima"], (j, i), w["maxima"], w["node"])
                else:
                    t.check(abs(e["maxima"]) < abs(w["maxima"]), "%r at level %r: extremum %r", case, level, e["maxima"])
            t.state(k, level, [(round(e["maxima"], 9), round(e["area_eddy"], 3)) for e in got])

    pts = [(j, i) for j in range(ny) for i in range(nx)]
    cases = [(k, p, s, c) for k in ctx.pick((0,), (0, 1)) for p in pts for s, c in ctx.pick([(True, "1D")], [(True, "1D"), (True, "2D"), (False, "1D")])]
    if not ctx.thorough:
        cases += [(0, (j, i), False, "2D") for j in range(3, 14, 3) for i in range(1, nx, 4)]
    yield Group("points", cases, decide)

    rows = ctx.pick((0, 4, 7, 10, ny), (0, 2, 4, 6, 8, 10, 13, ny))
    cols = ctx.pick((0, 3, 6, 12, 17, nx), (0, 3, 5, 7, 9, 12, 15, 17, 20, nx))
    rects = [(slice(a, b), slice(c, d)) for a, b in itertools.combinations(rows, 2) for c, d in itertools.combinations(cols, 2)]
    rects += [(slice(j, j + 1), slice(None)) for j in range(ny)] + [(slice(None), slice(i, i + 1)) for i in range(nx)]
    rects += [(slice(None), slice(None)), (slice(None, None, 2), slice(None, None, 3))]
    yield Group("regions", [(k, r, True, "1D") for k in (0, 1) for r in rects], decide)
    if ctx.thorough:
        part = [(j, i) for j in range(3, 13) for i in range(2, 10)]
        yield Group("pairs", [(0, (np.array([p[0], q[0]]), np.array([p[1], q[1]])), True, "1D")
                              for p, q in itertools.combinations(part, 2)], decide)

    # ---- filling

    def regions(f, what):
        f = f.copy()
        if what == "point":
            f[8, 6] = np.nan
        elif what == "edge":
            f[:, :5] = np.nan
        elif what == "island":
            f[5:8, 11:14] = np.nan
        elif what == "all":
            f[:] = np.nan
        elif what == "core":
            f[7:9, 5:7] = np.nan
        elif what == "checker":
            f[::3, ::4] = np.nan
        return f

    levels = np.array([-0.3, 0.0, 0.3, 0.55])

    def fill(case, t):
        k, what, setting, mode, skip, holes = case
        f = np.array([regions(fields[k] * (1 - 0.1 * n), what) if n in holes else fields[k] * (1 - 0.1 * n) for n in (0, 1)])
        filled = np.where(np.isnan(f), 0.0, f)

        def make(data, nan):
            ds = dataset(data, x, y)
            tr = tracker(ds, skip=skip, criteria={"ellipse_fit": 1.0}, nan_treatment=nan)
            if setting != "none":
                tr.filter = "space"
                tr.S_filter_setup = {"filter_type": setting.split()[0]}
                if "convolution" in setting:
                    tr.S_filter_setup.update(mode="uniform", kernel=int(setting.split()[1]))
            return ds, tr
        ds, a = make(f, True)
        copy = ds.copy(deep=True)
        _, b = make(filled, False)
        if mode == "field":
            load(a, 1), load(b, 1)
            t.check(np.allclose(a.data2track.values, b.data2track.values, atol=1e-12), "%r: the filtered field differs", case)
            ra, rb = a.data2track.values, b.data2track.values
            t.check(np.isfinite(ra).all(), "%r: missing points remain", case)
        elif mode == "track":
            ra, rb = track(a, levels), track(b, levels)
        else:
            ra, rb = a._detect_snapshot(0, levels), b._detect_snapshot(0, levels)
        t.op(2)
        if mode != "field":
            diff = tables_equal(rb, ra)
            t.check(diff is None, "%r: filling is not the same as detecting in the filled field: %s", case, diff)
        t.check(ds.identical(copy), "%r: the dataset was modified", case)
        t.state(case, ra if mode == "field" else [e["maxima"] for e in eddies(ra)])

    whats = ("point", "edge", "island", "core", "all", "checker")
    settings = ("none", "convolution 4", "convolution 9", "meridional", "zonal")
    yield Group("filling", [(k, w, s, m, True, (0, 1)) for k in (0, 1) for w in whats for s in settings for m in ("field", "snapshot", "track")]
                + [(0, w, s, m, True, h) for w in whats for s in settings for m in ("field", "track") for h in ((0,), (1,))]
                + [(k, w, s, "snapshot", False, (0, 1)) for k in ctx.pick((0,), (0, 1)) for w in whats for s in settings], fill)

    def empty(case, t):
        pattern, setting, nan = case
        data = np.array([fields[0] if p else np.full_like(fields[0], np.nan) for p in pattern])
        tr = tracker(dataset(data, x, y), skip=True, nan_treatment=nan)
        if setting != "none":
            tr.filter = "space"
            tr.S_filter_setup = {"filter_type": setting.split()[0]}
            if "convolution" in setting:
                tr.S_filter_setup.update(mode="uniform", kernel=int(setting.split()[1]))
        res = track(tr, levels)
        t.op(len(pattern))
        times = {int(e["time"]) for e in eddies(res)}
        ok = {k for k, p in enumerate(pattern) if p}
        t.check(times <= ok, "%r: eddies at times %r", case, times)
        if setting == "none":
            t.check(times == ok, "%r: eddies at times %r", case, times)
        t.state(case, sorted(times))

    yield Group("no data", [(p, s, n) for p in itertools.product((0, 1), repeat=3) for s in settings for n in (True, False)], empty)

    def timeless(case, t):
        # the snapshot of a dataset without time is treated like one in a series
        k, what, setting, nan, skip = case
        f = regions(fields[k], what)
        res = []
        series = dataset(np.array([f]), x, y)
        for ds in (series, series.isel(time=0, drop=True), series.isel(time=0)):
            tr = tracker(ds, skip=skip, criteria={"ellipse_fit": 1.0}, nan_treatment=nan)
            if setting != "none":
                tr.filter = "space"
                tr.S_filter_setup = {"filter_type": setting.split()[0]}
                if "convolution" in setting:
                    tr.S_filter_setup.update(mode="uniform", kernel=int(setting.split()[1]))
            copy = ds.copy(deep=True)
            res.append(tr._detect_snapshot(0, levels))
            t.op()
            t.check(ds.identical(copy), "%r: the dataset was modified", case)
            diff = tables_equal(res[0], res[-1])
            t.check(diff is None, "%r: the dataset without time gives another result: %s", case, diff)
        t.state(case, is_empty(res[0]), [e["maxima"] for e in eddies(res[0])])

    yield Group("no time", [(k, w, s, n, True) for k in (0, 1) for w in whats for s in settings for n in (True, False)]
                + [(0, w, "none", n, False) for w in whats for n in (True, False)], timeless)
