"""C16: the spatial filters subtract the mean they are named after, of their own snapshot."""
import itertools

from mc.core import Group
from mc.world import dataset, eddies, gauss, is_empty, load, match, track, tracker

BOUNDS = ("the filters being linear, every unit impulse on grids of 1x6 to 7x9, constants, ramps and a quadratic form x kernels 1..12 (even and odd, larger "
          "than the grid), the meridional and the zonal filter; every pattern of missing points of a 3x3 grid and every one or two of a "
          "4x5 grid; every sequence of 3 of 7 settings on one tracker, and of 2 (3) of 16 combinations of filter, treatment of missing data and snapshot; detections and tracks of a filtered field "
          "against the field filtered by the reference")
ASSUMPTIONS = ["even kernels are widened by one point; points outside the grid count as zero, missing points are left out of the mean"]


def groups(ctx):
    import numpy as np

    def ref_convolve(f, kernel):
        k = (kernel + 1 if kernel % 2 == 0 else kernel) // 2
        ny, nx = f.shape
        out = np.empty_like(f)
        for j in range(ny):
            for i in range(nx):
                tot, n = 0.0, 0
                for dj in range(-k, k + 1):
                    for di in range(-k, k + 1):
                        a, b = j + dj, i + di
                        if 0 <= a < ny and 0 <= b < nx:
                            if f[a, b] == f[a, b]:
                                tot += f[a, b]
                                n += 1
                        else:
                            n += 1
                out[j, i] = f[j, i] - (tot / n if n else np.nan)
        return out

    def ref(f, setting):
        kind = setting[0]
        if kind == "none":
            return f.copy()
        if kind == "convolution":
            return ref_convolve(f, setting[1])
        with np.errstate(invalid="ignore", divide="ignore"):
            ok = ~np.isnan(f)
            z = np.where(ok, f, 0.0)
            if kind == "meridional":      # departs from the mean along each parallel
                return f - (z.sum(1) / ok.sum(1))[:, None]
            return f - (z.sum(0) / ok.sum(0))[None, :]

    def apply(tr, setting):
        if setting[0] == "none":
            tr.filter = None
        else:
            tr.filter = "space"
            tr.S_filter_setup = {"filter_type": setting[0]}
            if setting[0] == "convolution":
                tr.S_filter_setup.update(mode="uniform", kernel=setting[1])

    def coords(ny, nx):
        return 10 + 0.5 * np.arange(nx), -3 + 0.4 * np.arange(ny)

    def same(got, want, t, what, *args):
        got = np.asarray(got)
        t.check(got.shape == want.shape, what + ": shape %r instead of %r", *args, got.shape, want.shape)
        ok = np.allclose(got, want, rtol=1e-9, atol=1e-11, equal_nan=True)
        if not ok:
            bad = np.argwhere(~np.isclose(got, want, rtol=1e-9, atol=1e-11, equal_nan=True))[0]
            t.check(False, what + ": at %r: %r instead of %r", *args, tuple(bad), got[tuple(bad)], want[tuple(bad)])
        t.check(True, "")

    def decide(case, t):
        shape, what, setting, layout = case
        ny, nx = shape
        f = np.zeros(shape)
        if what[0] == "impulse":
            f[what[1]] = 1.0
        elif what[0] == "quadratic":
            j, i = np.indices(shape)
            f = 0.3 * i * i - 0.7 * i * j + 1.3 * j + 0.1
        elif what[0] == "constant":
            f += 2.5
        elif what[0] == "missing":
            j, i = np.indices(shape)
            f = 1.0 + 0.37 * ((3 * j + 5 * i + i * j) % 7)
            for p in what[1]:
                f[p] = np.nan
        x, y = coords(ny, nx)
        if layout == "2D":
            ds = dataset(f, *np.meshgrid(x, y))
        elif layout == "time":
            ds = dataset(np.array([f * 0 + 7, f, -3 * f + 1]), x, y)
        elif layout == "transposed":
            ds = dataset(f.T, y, x, dims=("lon", "lat"))
        else:
            ds = dataset(f, x, y)
        if layout == "transposed":
            import xarray as xr
            ds = xr.Dataset({"ssh": (["lon", "lat"], f.T)}, coords={"lon": x, "lat": y})
        copy = ds.copy(deep=True)
        tr = tracker(ds)
        apply(tr, setting)
        load(tr, 1 if layout == "time" else None)
        t.op()
        got = tr.data2track.values
        want = ref(f, setting)
        if layout == "transposed" and got.shape == want.T.shape and got.shape != want.shape:
            got = got.T
        t.state(setting, np.nan_to_num(got, nan=-99.0))
        same(got, want, t, "%r", case)
        t.check(ds.identical(copy), "%r: the dataset was modified", case)
        t.check(tr.rawdata.equals(tr.Dataset["ssh"]) or layout == "transposed", "%r: the raw data was modified", case)

    kernels = ctx.pick((1, 2, 3, 4, 5, 8, 10), tuple(range(1, 13)))
    settings = [("convolution", k) for k in kernels] + [("meridional",), ("zonal",), ("none",)]
    shapes = ctx.pick([(4, 6), (5, 3)], [(4, 6), (5, 3), (7, 9), (2, 2), (3, 11)])
    cases = []
    for shape in shapes:
        for setting in settings:
            for layout in ("1D", "2D", "time", "transposed"):
                whats = [("impulse", (j, i)) for j in range(shape[0]) for i in range(shape[1])] if layout in ctx.pick(
                    ("1D",), ("1D", "2D", "time", "transposed")) else [("impulse", (1, 2)), ("impulse", (shape[0] - 1, 0))]
                whats += [("quadratic",), ("constant",)]
                cases += [(shape, w, setting, layout) for w in whats]
    yield Group("impulses", cases, decide)

    nan_settings = [("convolution", 1), ("convolution", 3), ("convolution", 4), ("meridional",), ("zonal",), ("none",)]
    missing = []
    pts = [(j, i) for j in range(3) for i in range(3)]
    for bits in range(2 ** 9):
        missing.append(((3, 3), ("missing", tuple(p for k, p in enumerate(pts) if bits >> k & 1))))
    pts = [(j, i) for j in range(4) for i in range(5)]
    for n in (1, 2):
        missing += [((4, 5), ("missing", c)) for c in itertools.combinations(pts, n)]
    yield Group("missing", [(s, w, st, "1D") for s, w in missing for st in nan_settings], decide)

    def sequence(case, t):
        """One tracker, and another one beside it, through several settings."""
        ny, nx = 5, 6
        j, i = np.indices((ny, nx))
        f = np.array([np.sin(1.3 * i + j) + 0.2 * i, np.cos(i * j + 0.3), 0.1 * i * j - j])
        x, y = coords(ny, nx)
        ds = dataset(f, x, y)
        tr, other = tracker(ds), tracker(ds)
        apply(other, ("convolution", 3))
        for n, setting in enumerate(case):
            apply(tr, setting)
            load(tr, n)
            t.op()
            same(tr.data2track.values, ref(f[n], setting), t, "%r, step %d", case, n)
            load(other, n)
            same(other.data2track.values, ref(f[n], ("convolution", 3)), t, "%r, another tracker at step %d", case, n)
            t.state(case[:n + 1], tr.data2track.values)

    alphabet = [("convolution", 1), ("convolution", 2), ("convolution", 5), ("convolution", 10), ("meridional",), ("zonal",), ("none",)]
    yield Group("sequences", list(itertools.product(alphabet, repeat=3)), sequence)

    def settings_of(case, t):
        """One tracker through changes of filter, treatment of missing data and snapshot (also the same again)."""
        ny, nx = 4, 5
        j, i = np.indices((ny, nx))
        f = np.array([np.sin(1.3 * i + j) + 0.2 * i, np.cos(i * j + 0.3)])
        f[0, 1, 2] = f[1, 3, 3] = f[1, 0, 0] = np.nan
        x, y = coords(ny, nx)
        tr = tracker(dataset(f, x, y))
        for n, (setting, fill, k, how) in enumerate(case):
            if how == "in place" and setting[0] == "convolution" and tr.filter == "space":
                tr.S_filter_setup.update(filter_type="convolution", mode="uniform", kernel=setting[1])
            else:
                apply(tr, setting)
            tr.nan_treatment = fill
            load(tr, k)
            t.op()
            g = np.where(np.isnan(f[k]), 0.0, f[k]) if fill else f[k]
            same(tr.data2track.values, ref(g, setting), t, "%r, step %d", case, n)
            t.state(case[:n + 1], np.nan_to_num(tr.data2track.values, nan=-99.0))

    steps = list(itertools.product([("convolution", 3), ("zonal",), ("none",)], (False, True), (0, 1), ("new",)))
    steps += [(("convolution", 5), f, k, "in place") for f in (False, True) for k in (0, 1)]
    yield Group("settings", list(itertools.product(steps, repeat=ctx.pick(2, 3))), settings_of)

    def defaults(case, t):
        ny, nx = 14, 15
        x, y = coords(ny, nx)
        j, i = np.indices((ny, nx))
        f = np.sin(0.7 * i + 0.2 * j) + 0.05 * i
        from trackeddy.trackeddy import TrackEddy
        tr = TrackEddy(dataset(f, x, y), "ssh")
        tr._filter_data_(tr.rawdata.squeeze(), filter="space")
        t.op()
        same(tr.data2track.values, ref_convolve(f, 10), t, "default filter")
        t.state("default")

    yield Group("defaults", [0], defaults)

    x, y = np.linspace(20, 26.2, 32), np.linspace(-3, 2, 26)
    X, Y = np.meshgrid(x, y)
    fields = np.array([gauss(X, Y, 22.1 + 0.1 * k, -0.5, 0.4, 0.36) - gauss(X, Y, 24.6, 0.4 + 0.07 * k, 0.35) + 0.3 * X + 0.2 * Y * Y
                       for k in range(2)])
    levels = np.array([-0.5, 0.3, 0.55])

    def detect(case, t):
        setting, mode, skip = case
        pre = np.array([ref(f, setting) for f in fields])
        a, b = tracker(dataset(fields, x, y), skip=skip), tracker(dataset(pre, x, y), skip=skip)
        apply(a, setting)
        if mode == "track":
            ra, rb = track(a, levels), track(b, levels)
        else:
            ra, rb = a._detect_snapshot(1, levels), b._detect_snapshot(1, levels)
        t.op(2)
        ea, eb = eddies(ra), eddies(rb)
        if not eb:
            t.trivial()
        d = match(eb, ea, "%r" % (case,))
        t.check(d is None, "the detection in the filtered field is not that of the field filtered before: %s", d)
        t.state(case, [round(e["maxima"], 6) for e in ea])

    yield Group("detections", [(s, m, k) for s in settings if s[0] != "convolution" or s[1] in (3, 5, 8, 10, 12)
                               for m in ("snapshot", "track") for k in (True, False)], detect)
