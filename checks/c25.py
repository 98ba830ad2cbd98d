"""C25: configurations that are not supported are rejected, those supported are obeyed."""
import itertools
import os
import shutil

from mc.core import Group
from mc.world import dataset, gauss, is_empty, load, tables_equal, track, tracker

BOUNDS = ("every combination of 8 filters x 7 filter types x 6 modes x 2 kernels, at 4 entry points; 9 formats x 2 windows; 11 values of "
          "nan_treatment; every pair of 8 x 8 names of the dimensions x 6 presences of the coordinates; every subset of the criteria; the defaults, with other trackers changed; "
          "each rejection followed by a repaired configuration on the same tracker")
ASSUMPTIONS = ["the temporal filters, the gaussian mode and the hd5 format are not available: asking for them must raise, any exception is accepted"]


def groups(ctx):
    import numpy as np
    import xarray as xr
    from mc.build import scratch_dir
    from trackeddy.trackeddy import TrackEddy

    ny, nx, nt = 14, 16, 2
    x, y = np.linspace(20, 23, nx), np.linspace(5, 7.6, ny)
    X, Y = np.meshgrid(x, y)
    F = np.array([gauss(X, Y, 21.2 + 0.1 * k, 6.2, 0.4, 0.36) - gauss(X, Y, 22.5, 6.7, 0.3, 0.26) + 0.2 * X - 4 for k in range(nt)])
    ds = dataset(F, x, y)
    levels = [0.2, 0.35, -0.2]

    def same(a, b):
        if is_empty(a) or is_empty(b):
            return is_empty(a) and is_empty(b)
        return tables_equal(a, b) is None

    def attempt(fn):
        try:
            return fn(), None
        except Exception as e:
            return None, e

    ENTRIES = {
        "level": lambda tr: load(tr, 1)._detect_one_level(0.2)[0],
        "snapshot": lambda tr: tr._detect_snapshot(1, levels),
        "track": lambda tr: track(tr, levels),
        "offline": None,
    }
    scratch = scratch_dir()

    def offline(tr, name, **kw):
        d = os.path.join(scratch, "c25_%d_%s" % (os.getpid(), name))
        os.makedirs(d)
        tr.out_path = d
        try:
            res, err = attempt(lambda: track(tr, levels, online_track=False, **kw))
            files = {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))}
            if err is not None:
                raise err
            return files
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def outcome(entry, tr, name):
        return offline(tr, name) if entry == "offline" else ENTRIES[entry](tr)

    def anomaly(a, ft, kernel):
        """Field without its mean, computed here."""
        if ft == "meridional":
            return a - a.mean(-1, keepdims=True)
        if ft == "zonal":
            return a - a.mean(-2, keepdims=True)
        k = kernel + (kernel % 2 == 0)
        h = k // 2
        p = np.pad(a, ((h, h), (h, h)))
        return a - np.array([[p[j:j + k, i:i + k].mean() for i in range(a.shape[1])] for j in range(a.shape[0])])

    FILTERS = [None, "space", "Space", "spatial", "meridional", "time", "both", "none"]
    TYPES = ["convolution", "meridional", "zonal", "Convolution", "latitudinal", "", None]
    MODES = ["uniform", "gaussian", "Uniform", "box", "", None]
    KERNELS = [5, 6]

    fresh = {}

    def plain(entry):
        if entry not in fresh:
            fresh[entry] = outcome(entry, tracker(ds, skip=True, filter=None), "plain")
        return fresh[entry]

    def filters(case, t):
        entry, flt, ft, mode, kernel = case
        tr = tracker(ds, skip=True, filter=flt)
        tr.S_filter_setup = {"filter_type": ft, "mode": mode, "kernel": kernel}
        res, err = attempt(lambda: outcome(entry, tr, "f"))
        t.op()
        if flt is None:
            ok = True
        elif flt == "space":
            ok = ft in ("meridional", "zonal") or (ft == "convolution" and mode == "uniform")
        else:
            ok = False
        t.state(case, type(err).__name__)
        if not ok:
            t.check(err is not None, "%r: the detection ran with a filter that doesn't exist", case)
            documented = flt not in (None, "space", "time", "both") or (flt == "space" and ft not in TYPES[:3]) or (
                flt == "space" and ft == "convolution" and mode not in ("uniform", "gaussian"))
            if documented:
                t.check(isinstance(err, ValueError), "%r: %r instead of ValueError", case, err)
        else:
            t.check(err is None, "%r: %r", case, err)
            if flt is None:
                t.check(same(plain(entry), res) if entry != "offline" else res == plain(entry), "%r: the field was filtered", case)
                if entry == "level":
                    t.check(np.array_equal(tr.data2track.values, F[1]), "%r: the field was modified", case)
            elif entry in ("level", "snapshot"):
                got = np.asarray(tr.data2track)
                t.check(np.allclose(got, anomaly(F[1], ft, kernel), atol=1e-9), "%r: the field is not the anomaly", case)
        # the same tracker, repaired
        tr.filter = None
        again = outcome(entry, tr, "r")
        t.op()
        t.check(same(plain(entry), again) if entry != "offline" else again == plain(entry),
                "%r: the detection after it is not that of the field", case)

    combos = list(itertools.product(FILTERS, TYPES, MODES, KERNELS))
    entries = ctx.pick({"level": combos, "snapshot": combos[::3], "track": combos[::5], "offline": combos[::7]}, {e: combos for e in ENTRIES})
    yield Group("filters", [(e,) + c for e, cs in entries.items() for c in cs], filters)

    def formats(case, t):
        fmt, window = case
        tr = tracker(ds, skip=True, filter=None)
        tr.out_format = fmt
        res, err = attempt(lambda: offline(tr, "fmt", **window))
        t.op()
        t.state(case, type(err).__name__)
        if fmt in ("csv", "json"):
            first = window.get("t0", 0)
            want = ["identified_eddies_%05d.%s" % (k, fmt) for k in range(first, nt)]
            t.check(err is None and list(res) == want, "%r: files %r instead of %r", case, err or list(res), want)
        else:
            t.check(err is not None, "%r: tracked with a format that doesn't exist, and wrote %r", case, res and list(res))
            if fmt != "hd5":
                t.check(isinstance(err, ValueError), "%r: %r instead of ValueError", case, err)
        # tracking online doesn't write, so it doesn't depend on the format
        d = os.path.join(scratch, "c25_%d_on" % os.getpid())
        os.makedirs(d)
        try:
            tr.out_path = d
            res = track(tr, levels)
            t.check(os.listdir(d) == [], "%r: tracking online wrote %r", case, os.listdir(d))
            t.check(same(res, plain("track")), "%r: tracks", case)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    yield Group("formats", [(f, w) for f in ("csv", "json", "CSV", "txt", "nc", "hdf5", "", None, "parquet", "hd5") for w in ({}, {"t0": 1})], formats)

    def nans(case, t):
        k, hole = case
        val = VALUES[k]
        f = F[0].copy()
        if hole:
            f[7, 9] = f[2, 3] = np.nan
        tr = tracker(dataset(f, x, y), skip=True, filter=None, nan_treatment=val)
        res, err = attempt(lambda: tr._detect_snapshot(None, levels))
        t.op()
        t.state(case, type(err).__name__)
        valid = isinstance(val, (bool, np.bool_)) or (isinstance(val, (int, float)) and val in (0, 1))
        if not valid:
            t.check(isinstance(err, ValueError), "nan_treatment=%r: %r", val, err)
            tr.nan_treatment = True
            res, val = tr._detect_snapshot(None, levels), True
        t.check(valid is False or err is None, "nan_treatment=%r: %r", val, err)
        want = np.nan_to_num(f) if val else f
        t.check(np.array_equal(np.asarray(tr.data2track), want, equal_nan=True), "nan_treatment=%r: the field", val)

    VALUES = [True, False, np.True_, np.False_, 1, 0, None, "yes", "False", "", 2, -1, 0.5]
    yield Group("nan_treatment", [(k, h) for k in range(len(VALUES)) for h in (True, False)], nans)

    XN = ["lon", "longitude", "nlon", "x", "east", "X", "i", "xh"]
    YN = ["lat", "latitude", "nlat", "y", "north", "Y", "j", "yh"]

    def names(case, t):
        xn, yn, how, timed = case
        known = xn in XN[:4], yn in YN[:4]
        dims = (["time"] if timed else []) + [yn, xn]
        f = F if timed else F[0]
        cx, cy = {"none": (None, None), "1D": ((xn, x), (yn, y)), "2D": (((yn, xn), X + 5), ((yn, xn), Y + 7)),
                  "x 2D": (((yn, xn), X + 5), (yn, y)), "y 2D": ((xn, x), ((yn, xn), Y + 7)),
                  "3D": (((yn, xn, "bnds"), np.stack([X, X], -1)), ((yn, xn, "bnds"), np.stack([Y, Y], -1)))}[how]
        d = xr.Dataset({"ssh": (dims, f)})
        if how == "1D":
            d = d.assign_coords({xn: x, yn: y})
        elif cx is not None:
            d["nav_lon"], d["nav_lat"] = cx, cy
        tr, err = attempt(lambda: TrackEddy(d, "ssh"))
        t.op()
        t.state(case, type(err).__name__)
        if how in ("1D", "none"):
            if all(known):
                t.check(err is None, "%r: %r", case, err)
                want = (X, Y) if how == "1D" else np.meshgrid(np.arange(nx), np.arange(ny))
                t.check(np.array_equal(tr.X, want[0]) and np.array_equal(tr.Y, want[1]), "%r: wrong coordinates", case)
            else:
                t.check(isinstance(err, ValueError), "%r: coordinates that can't be identified: %r", case, err or tr.coords)
        elif how == "2D":
            if all(known):
                t.check(err is None and np.array_equal(tr.X, X + 5) and np.array_equal(tr.Y, Y + 7), "%r: wrong coordinates: %r", case, err)
        elif how == "3D" or all(known):
            t.check(isinstance(err, ValueError), "%r: coordinates of %s: %r", case, how, err or tr.coords)

    yield Group("names", [(a, b, h, tm) for a in XN for b in YN for h in ("none", "1D", "2D", "x 2D", "y 2D", "3D") for tm in (True, False)], names)

    def criteria(case, t):
        # a criterion that isn't given is an error, not a criterion that isn't applied
        keys, skip = case
        tr = tracker(ds, skip=skip, filter=None)
        full = dict(tr.identification_criteria)
        tr.identification_criteria = {k: full[k] for k in keys}
        res, err = attempt(lambda: tr._detect_snapshot(0, levels))
        t.op()
        t.state(case, type(err).__name__)
        need = {"ellipse_fit", "eccentricity", "max_area"} | (set() if skip else {"gaussian_fit"})
        if need <= set(keys):
            t.check(err is None, "%r: %r", case, err)
        else:
            t.check(isinstance(err, KeyError), "%r: detected without the criteria %r: %r", case, need - set(keys), err)
        tr.identification_criteria = full
        again = tr._detect_snapshot(0, levels)
        other = tracker(ds, skip=skip, filter=None)._detect_snapshot(0, levels)
        t.check(not is_empty(again) and same(again, other), "%r: the detection after it differs", case)

    allk = ("ellipse_fit", "eccentricity", "gaussian_fit", "max_area")
    yield Group("criteria", [(ks, s) for r in range(5) for ks in itertools.combinations(allk, r) for s in (True, False)], criteria)

    def inputs(case, t):
        kind = case
        bad = {"variable": (ds, "sst"), "array": (ds["ssh"], "ssh"), "numpy": (F, "ssh"), "none": (None, "ssh"),
               "file": (os.path.join(scratch, "no_such_file.nc"), "ssh"), "empty glob": (os.path.join(scratch, "no_such_*.nc"), "ssh")}[kind]
        tr, err = attempt(lambda: TrackEddy(*bad))
        t.op()
        t.state(case, type(err).__name__)
        t.check(err is not None, "%r: accepted", kind)

    yield Group("inputs", ["variable", "array", "numpy", "none", "file", "empty glob"], inputs)

    explicit = {"filter": "space", "S_filter_setup": {"filter_type": "convolution", "mode": "uniform", "kernel": 10}, "skip_gaussian_fit": False,
                "nan_treatment": False, "out_format": "csv",
                "identification_criteria": {"ellipse_fit": 0.85, "eccentricity": 0.85, "gaussian_fit": 0.8, "max_area": 2 * np.pi}}
    asked = {}

    def defaults(case, t):
        """What is not asked for is the default; other trackers don't change it."""
        entry, named, other = case
        if other:
            # another tracker, with its own settings, changed in place
            o = TrackEddy(ds.copy(), "ssh")
            o.S_filter_setup.update(filter_type="zonal", mode="box", kernel=3)
            o.identification_criteria.update(ellipse_fit=2.0, eccentricity=2.0, gaussian_fit=2.0, max_area=0.0)
            o.filter = None
            o.out_format = "json"
        tr = TrackEddy(ds, "ssh")
        for n, v in explicit.items():
            t.check(getattr(tr, n) == v, "%r: %s is %r", case, n, getattr(tr, n))
        for n in named:
            v = explicit[n]
            setattr(tr, n, dict(v) if isinstance(v, dict) else v)
        if entry not in asked:
            full = TrackEddy(ds, "ssh")
            for n, v in explicit.items():
                setattr(full, n, dict(v) if isinstance(v, dict) else v)
            asked[entry] = outcome(entry, full, "all"), np.asarray(full.data2track)
        want, field = asked[entry]
        res = outcome(entry, tr, "d")
        t.op()
        t.state(case)
        t.check(res == want if entry == "offline" else same(want, res), "%r: the defaults are not %r", case, explicit)
        t.check(np.array_equal(np.asarray(tr.data2track), field), "%r: the field is filtered in another way", case)
        t.check(np.allclose(field if entry in ("level", "snapshot") else 0, anomaly(F[1], "convolution", 10) if entry in ("level", "snapshot") else 0, atol=1e-9),
                "%r: the default is not the anomaly", case)

    names = list(explicit)
    yield Group("defaults", [(e, n, o) for e in ENTRIES for n in [()] + [(a,) for a in names] + [tuple(b for b in names if b != a) for a in names]
                             for o in (False, True)], defaults)
