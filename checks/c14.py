"""C14: the result depends on the data, not on how the dataset represents them."""
import itertools
import os
import shutil

from mc.core import Group
from mc.world import dataset, eddies, gauss, is_empty, match, tables_equal, track, tracker

BOUNDS = ("every combination of the order of the dimensions (6), the representation of the coordinates (1D, 2D coordinates, 2D "
          "variables), 5 sets of names, 8 memory representations of the values (C, Fortran, strided, reversed, read-only, "
          "big-endian, 3 dask chunkings) on a regular and a curvilinear grid x detection without filter, with the spatial filters, with the fit, and tracking; "
          "datasets of a single snapshot; snapshots given by position, numpy integer or date; singleton dimensions, other variables, times as dates, files and lists of files, single precision and integers")
ASSUMPTIONS = ["the names of the coordinates contain lon/lat/time or are x/y/t, and those of 2D coordinates correspond (nav_lon, nav_lat)",
               "single precision is accepted within its rounding"]


def groups(ctx):
    import numpy as np
    import xarray as xr
    from mc.build import scratch_dir

    ny, nx, nt = 17, 23, 3
    x, y = np.linspace(20, 24.4, nx), np.linspace(-12, -8.8, ny)
    X, Y = np.meshgrid(x, y)
    field = np.array([gauss(X, Y, 21.33 + 0.13 * k, -10.21 + 0.05 * k, 0.42, 0.36) - gauss(X, Y, 23.2, -10.6 + 0.11 * k, 0.35, 0.31)
                      + 0.01 * X for k in range(nt)])
    U, V = X - 22.2, Y + 10.4
    CX, CY = 22.2 + 0.96 * U - 0.2 * V, -10.4 + 0.17 * U + 0.95 * V + 0.02 * U * V
    cfield = np.array([gauss(CX, CY, 21.33 + 0.13 * k, -10.21 + 0.05 * k, 0.42, 0.36) - gauss(CX, CY, 23.2, -10.6, 0.35, 0.31)
                       for k in range(nt)])
    levels = np.array([-0.5, 0.3, 0.55])
    MODES = {"plain": dict(skip=True), "fit": dict(), "space": dict(filter="space", skip=True), "track": dict(skip=True),
             "meridional": dict(filter="space", skip=True), "zonal": dict(filter="space", skip=True)}

    def run(ds, mode, var="ssh", snapshot=1, **kw):
        tr = tracker(ds, var, criteria={"ellipse_fit": 1.0}, **MODES[mode], **kw)
        if mode in ("meridional", "zonal"):
            tr.S_filter_setup = {"filter_type": mode}
        elif mode == "space":
            tr.S_filter_setup = dict(tr.S_filter_setup, kernel=9)
        if mode == "track":
            return track(tr, levels)
        return tr._detect_snapshot(snapshot, levels)

    names = {"short": ("time", "lat", "lon", "lat", "lon"), "long": ("time", "latitude", "longitude", "latitude", "longitude"),
             "nav": ("time_counter", "y", "x", "nav_lat", "nav_lon"), "xy": ("t", "y", "x", "y", "x"),
             "mixed": ("ocean_time", "nlat", "nlon", "TLAT_lat", "TLONG_lon")}

    def memory(a, how):
        if how == "C":
            return a.copy()
        if how == "F":
            return np.asfortranarray(a)
        if how == "strided":
            b = np.full(tuple(2 * n for n in a.shape), 99.0)
            v = b[tuple(slice(0, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        if how == "reversed":
            return a[::-1, ::-1, ::-1].copy()[::-1, ::-1, ::-1]
        if how == "readonly":
            b = a.copy()
            b.setflags(write=False)
            return b
        if how == "bigendian":
            return a.astype(">f8")
        import dask.array as da
        ch = {"dask": a.shape, "dask1": tuple(1 for _ in a.shape), "dask5": tuple(min(5, n) for n in a.shape)}[how]
        return da.from_array(a.copy(), chunks=ch)

    def make(grid, order, coords, nm, how):
        f = field if grid == "regular" else cfield
        tn, yn, xn, yv, xv = names[nm]
        dims = {"t": tn, "y": yn, "x": xn}
        perm = ["tyx".index(c) for c in order]
        arr = memory(np.transpose(f, perm), how)
        da = xr.DataArray(arr, dims=[dims[c] for c in order])
        gx, gy = (X, Y) if grid == "regular" else (CX, CY)
        if coords == "1D":
            return xr.Dataset({"ssh": da}, coords={yn: y, xn: x, tn: np.arange(nt)})
        cx, cy = xr.DataArray(gx, dims=[yn, xn]), xr.DataArray(gy, dims=[yn, xn])
        ds = xr.Dataset({"ssh": da})
        # variables named as a dimension must be 1D in xarray
        yv, xv = (yv, xv) if yv not in (yn,) else (yv + "_lat" if "lat" not in yv else "nav_" + yv,
                                                  xv + "_lon" if "lon" not in xv else "nav_" + xv)
        if coords == "2Dcoords":
            return ds.assign_coords({xv: cx, yv: cy})
        ds[xv], ds[yv] = cx, cy
        return ds

    base = {}

    def reference(grid, mode):
        if (grid, mode) not in base:
            base[grid, mode] = run(make(grid, "tyx", "1D" if grid == "regular" else "2Dcoords", "short", "C"), mode)
        return base[grid, mode]

    def decide(case, t):
        grid, order, coords, nm, how, mode = case
        ds = make(grid, order, coords, nm, how)
        copy = ds.copy(deep=True)
        ref = reference(grid, mode)
        t.check(not is_empty(ref) and len(eddies(ref)) >= 2, "%s: eddies of the reference: %r", mode, ref)
        res = run(ds, mode)
        t.op()
        diff = tables_equal(ref, res)
        t.check(diff is None, "%r: the result differs from that of the reference representation: %s", case, diff)
        t.check(ds.identical(copy), "%r: the dataset was modified", case)
        t.state(grid, mode, res)

    orders = ["".join(p) for p in itertools.permutations("tyx")]
    mems = ["C", "F", "strided", "reversed", "readonly", "bigendian", "dask", "dask1", "dask5"]
    modes = list(MODES)
    grids = [("regular", "1D"), ("regular", "2Dcoords"), ("regular", "2Dvars"), ("curvilinear", "2Dcoords"),
             ("curvilinear", "2Dvars")]
    cases = []
    for grid, coords in grids:
        for order in orders:
            for nm in names:
                for how in mems:
                    if nm == "mixed" and coords == "1D":
                        continue
                    if ctx.thorough:
                        ms = modes
                    else:
                        # each pair of choices, with every mode
                        k = orders.index(order) + mems.index(how) + list(names).index(nm)
                        if order != "tyx" and how != "C" and nm != "short":
                            continue
                        ms = [modes[k % 6], modes[(k + 2) % 6]] if how in ("C", "F") else [modes[k % 6]]
                    cases += [(grid, order, coords, nm, how, m) for m in ms]
    yield Group("representations", cases, decide)

    def single(case, t):
        """A dataset of one snapshot, without time."""
        grid, order, coords, nm, how, mode, drop, arg = case
        ds = make(grid, order, coords, nm, how).isel({names[nm][0]: 1}, drop=drop)
        copy = ds.copy(deep=True)
        ref = reference(grid, mode)
        res = run(ds, mode, snapshot=arg)
        t.op()
        diff = tables_equal(ref, res)
        t.check(diff is None, "%r: the result differs from that of the snapshot in a series: %s", case, diff)
        t.check(ds.identical(copy), "%r: the dataset was modified", case)
        t.state(grid, mode, res)

    yield Group("single", [(grid, order, coords, nm, how, m, drop, arg) for grid, coords in grids for order in ("tyx", "txy", "xyt", "yxt")
                           for nm in ("short", "nav", "xy") for how in ("C", "F", "dask") for m in ctx.pick(("plain", "space", "zonal"), [m for m in modes if m != "track"])
                           for drop, arg in ctx.pick(((True, 1), (False, 0)), list(itertools.product((True, False), (1, 0))))], single)

    def chosen(case, t):
        """A snapshot given by its position or by its date."""
        grid, coords, order, nm, how, mode, kind, k = case
        ds = make(grid, order, coords, nm, how)
        days = ["2020-02-28", "2020-02-29", "2020-03-01"]
        if kind in ("day", "hour"):
            ds = ds.assign_coords({names[nm][0]: np.array([d + "T06:30" * (kind == "hour") for d in days], "datetime64[ns]")})
        want = run(make(grid, "tyx", coords, "short", "C"), mode, snapshot=k)
        t.check(not is_empty(want), "no eddies")
        args = {"int": [k], "numpy": [np.int64(k), np.int32(k), np.uint8(k), np.arange(nt)[k]],
                "day": [days[k]], "hour": [days[k] + "T06:30", days[k]]}[kind]
        for arg in args:
            res = run(ds, mode, snapshot=arg)
            t.op()
            diff = tables_equal(want, res)
            t.check(diff is None, "%r: the snapshot %r differs from snapshot %d: %s", case, arg, k, diff)
        t.state(case[:1], mode, k, want)

    yield Group("snapshots", [(grid, coords, order, nm, how, m, kind, k) for grid, coords in (("regular", "1D"), ("curvilinear", "2Dvars"))
                              for order in ("tyx", "xty") for nm in ("short", "nav", "xy") for how in ("C", "dask") for m in ("plain", "space")
                              for kind in ("int", "numpy", "day", "hour") for k in range(nt)], chosen)

    # ---- other containers

    scratch = scratch_dir()

    def other(case, t):
        kind, mode = case
        ref = reference("regular", mode)
        ds = make("regular", "tyx", "1D", "short", "C")
        exact, var, kw = True, "ssh", {}
        d = os.path.join(scratch, "c14_%d_%s_%s" % (os.getpid(), kind, mode))
        try:
            if kind == "singleton":
                ds = ds.expand_dims("depth", axis=1)
            elif kind == "singleton first":
                ds = ds.expand_dims("depth", axis=0)
            elif kind == "singleton last":
                ds = ds.expand_dims("depth", axis=3)
            elif kind == "singleton scalar":
                ds = ds.assign_coords(depth=5.0)
            elif kind == "variables":
                ds["speed"] = ds["ssh"] * 2 + 1
                ds["mask"] = xr.ones_like(ds["ssh"].isel(time=0))
            elif kind == "fluxes":
                for k, n in enumerate(("lowlatent", "longwave", "latent_heat", "lon_flux")):
                    ds[n] = ds["ssh"] * (100 + k)
            elif kind == "fluxes of a snapshot":
                for k, n in enumerate(("longwave", "latent_heat", "plate")):
                    ds[n] = ds["ssh"].isel(time=1, drop=True) * (100 + k) + k
            elif kind == "scalars":
                ds["lon0"], ds["lat0"] = 20.0, 3.0
            elif kind == "bounds":
                ds["lon_bnds"] = (("lon", "bnds"), np.c_[x - 0.1, x + 0.1])
                ds["lat_bnds"] = (("lat", "bnds"), np.c_[y - 0.1, y + 0.1])
                ds["time_bnds"] = (("time", "bnds"), np.c_[np.arange(nt), np.arange(nt) + 1])
            elif kind.startswith("2D"):
                # coordinates as 2D variables or coordinates, with other variables before and after
                new = ds.rename(lon="x", lat="y").drop_vars(["x", "y"])
                cx, cy = xr.DataArray(X, dims=["y", "x"]), xr.DataArray(Y, dims=["y", "x"])
                if "coords" in kind:
                    new = new.assign_coords(nav_lon=cx, nav_lat=cy)
                new["longwave"] = new["ssh"] * 3
                new["platform"] = new["ssh"].isel(time=0, drop=True) - 1
                if "coords" not in kind:
                    new["longitude_t"], new["latitude_t"] = cx, cy
                new["latent"] = new["ssh"].isel(time=0, drop=True) * 2
                new["longest"] = new["ssh"].isel(time=0, drop=True) * 3
                ds = new
            elif kind == "variable name":
                ds = ds.rename(ssh="sea surface height")
                var = "sea surface height"
            elif kind == "dates":
                ds = ds.assign_coords(time=np.array(["2020-01-%02d" % (k + 1) for k in range(nt)], dtype="datetime64[ns]"))
            elif kind == "no time coordinate":
                ds = ds.drop_vars("time")
            elif kind == "attributes":
                ds["ssh"].attrs["units"] = "m"
                ds.lon.attrs["units"] = "degrees_east"
            elif kind in ("file", "glob", "chunked file"):
                os.makedirs(d)
                if kind in ("file", "chunked file"):
                    ds.to_netcdf(os.path.join(d, "a.nc"), engine="scipy")
                    ds = os.path.join(d, "a.nc")
                    kw = {"chunks": {"time": 1, "lon": 7}} if kind == "chunked file" else {}
                else:
                    for k in range(nt):
                        ds.isel(time=[k]).to_netcdf(os.path.join(d, "a%d.nc" % k), engine="scipy")
                    ds = os.path.join(d, "a*.nc")
            elif kind == "float32":
                ds["ssh"] = ds["ssh"].astype("float32")
                exact = False
            elif kind == "float32 coordinates":
                ds = ds.assign_coords(lon=x.astype("float32"), lat=y.astype("float32"))
                exact = False
            elif kind == "integers":
                vals = np.round(field * 1000)
                ds = dataset(vals.astype("int16"), x, y)
                dsf = dataset(vals, x, y)
            if kind == "integers":
                old = levels.copy()
                try:
                    levels[:] = old * 1000
                    ref, res = run(dsf, mode), run(ds, mode)
                finally:
                    levels[:] = old
            else:
                res = run(ds, mode, var=var, **kw)
            t.op()
            if exact:
                diff = tables_equal(ref, res)
            else:
                loose = dict(rtol=2e-3, atol=2e-4, keys=["level", "area_eddy", "radius_eddy", "eddy_sign", "maxima", "maxima_x",
                                                         "maxima_y", "contour_x", "contour_y"])
                diff = match(eddies(ref), eddies(res), kind, **loose)
            t.check(diff is None, "%r: the result differs: %s", case, diff)
            t.check(not is_empty(res), "%r: no eddies", case)
            t.state(case, res)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    kinds = ["singleton", "singleton first", "singleton last", "singleton scalar", "variables", "fluxes", "fluxes of a snapshot", "scalars", "bounds",
             "2D variables", "2D coords", "variable name", "dates", "no time coordinate", "attributes", "file",
             "glob", "chunked file", "float32", "float32 coordinates", "integers"]
    yield Group("containers", [(k, m) for k in kinds for m in modes], other)
