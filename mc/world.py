"""Building datasets, driving a tracker and reading its tables."""
import io
import math
import sys

import numpy as np
import pandas as pd

KM = 6371.0


def gauss(X, Y, x0, y0, sx, sy=None, theta=0.0, amp=1.0):
    sy = sx if sy is None else sy
    c, s = math.cos(theta), math.sin(theta)
    u = (X - x0) * c + (Y - y0) * s
    v = -(X - x0) * s + (Y - y0) * c
    return amp * np.exp(-(u ** 2 / (2 * sx ** 2) + v ** 2 / (2 * sy ** 2)))


def dataset(field, x, y, var="ssh", dims=None):
    """A Dataset of a 2D/3D field on 1D or 2D coordinates."""
    import xarray as xr
    field = np.asarray(field)
    d = list(dims) if dims else (["time", "lat", "lon"] if field.ndim == 3 else ["lat", "lon"])
    if np.ndim(x) == 1:
        return xr.Dataset({var: (d, field)}, coords={d[-1]: np.asarray(x), d[-2]: np.asarray(y)})
    return xr.Dataset({var: (["time", "y", "x"][3 - field.ndim:], field),
                       "lon": (["y", "x"], np.asarray(x)), "lat": (["y", "x"], np.asarray(y))})


def tracker(ds, var="ssh", skip=False, filter=None, criteria=None, cls=None, **kw):
    from trackeddy.trackeddy import TrackEddy
    t = (cls or TrackEddy)(ds, var, **kw)
    t.filter = filter
    t.skip_gaussian_fit = skip
    if criteria:
        t.identification_criteria = dict(t.identification_criteria, **criteria)
    return t


def load(t, snapshot=None):
    """Prepare the field for single level detections, as a snapshot detection does."""
    data = t.rawdata if snapshot is None else t.rawdata.isel({t.coords["time"]: snapshot})
    t._filter_data_(data.squeeze(), filter=t.filter)
    return t


class quiet:
    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.old


def track(t, levels, **kw):
    """time_tracking without its progress bar."""
    with quiet():
        return t.time_tracking(lin_levels=levels, **kw)


SCALARS = ["level", "area_eddy", "radius_eddy", "contour_ellipse_error", "ellipse_eccen",
           "contour_x", "contour_y", "eddy_sign", "maxima", "maxima_y", "maxima_x",
           "contour_gaussian_error"]
ELLIPSE = ["ellipse_params_a", "ellipse_params_b", "ellipse_params_theta"]
GAUSS = ["gaussian_params_x", "gaussian_params_y", "gaussian_params_sigma_x",
         "gaussian_params_sigma_y", "gaussian_params_theta"]


def is_empty(table):
    return table is None or isinstance(table, list) or getattr(table, "empty", True)


def eddies(table, t=None):
    """List of {attribute: value, path: (n, 2) array, id, time} of a table of eddies.

    Checks that each attribute is constant over the rows of an eddy and that the
    vertex index runs from 0.
    """
    from .core import Violation
    if is_empty(table):
        return []
    names = list(table.index.names)
    for want in ("identifier", "index"):
        if want not in names:
            raise Violation("the table of eddies has no %r index level: %r" % (want, names))
    need = SCALARS + ELLIPSE + ["contour_path_x", "contour_path_y"]
    miss = [c for c in need if c not in table.columns]
    if miss:
        raise Violation("the table of eddies has no column %r" % (miss,))
    flat = table.reset_index()
    keys = ["identifier"] + (["time"] if "time" in flat.columns else [])
    out = []
    has_gauss = all(g in flat.columns for g in GAUSS)
    cols = SCALARS + ELLIPSE + (GAUSS if has_gauss else [])
    for key, g in flat.groupby(keys, sort=True):
        e = {"id": key[0], "time": key[1] if len(keys) > 1 else None}
        idx = g["index"].to_numpy()
        if list(idx) != list(range(len(idx))):
            raise Violation("rows of eddy %r are not numbered from 0 once: %r" % (key, idx.tolist()[:80]))
        vals = g[cols].to_numpy(dtype=float)
        same = (vals == vals[0]) | (np.isnan(vals) & np.isnan(vals[0]))
        if not same.all():
            raise Violation("attributes of eddy %r differ between its rows: %r" % (
                key, [c for c, s in zip(cols, same.all(0)) if not s]))
        e.update(zip(cols, vals[0].tolist()))
        e["path"] = g[["contour_path_x", "contour_path_y"]].to_numpy(dtype=float)
        out.append(e)
    return out


def discarded(table):
    """List of records of the table of discarded contours."""
    if is_empty(table):
        return []
    return table.to_dict("records")


def haversine(lat1, lon1, lat2, lon2):
    a, b, c, d = (math.radians(v) for v in (lat1, lon1, lat2, lon2))
    h = math.sin((c - a) / 2) ** 2 + math.cos(a) * math.cos(c) * math.sin((d - b) / 2) ** 2
    return 2 * KM * math.asin(min(1.0, math.sqrt(h)))


def polygon_area(path, radius_km=6378.137):
    """Area (km2) of a lon/lat polygon with edges straight in lon/lat: exact
    integral of sin(lat) dlon. Longitudes may cross any meridian, continuously."""
    lon, lat = np.radians(path[:, 0]), np.radians(path[:, 1])
    d = np.diff(lon)
    d = (d + np.pi) % (2 * np.pi) - np.pi
    a, b = lat[:-1], lat[1:]
    dl = b - a
    small = np.abs(dl) < 1e-9
    with np.errstate(divide="ignore", invalid="ignore"):
        mean_sin = np.where(small, np.sin((a + b) / 2), (np.cos(a) - np.cos(b)) / np.where(small, 1, dl))
    return abs(float(np.sum(mean_sin * d))) * radius_km ** 2


def inside(path, px, py):
    """Vectorised even-odd test: nodes strictly inside the closed polygon."""
    px, py = np.asarray(px, float), np.asarray(py, float)
    res = np.zeros(px.shape, bool)
    x, y = path[:, 0], path[:, 1]
    for k in range(len(path) - 1):
        x1, y1, x2, y2 = x[k], y[k], x[k + 1], y[k + 1]
        if y1 == y2:
            continue
        cond = (y1 > py) != (y2 > py)
        res ^= cond & (px < (x2 - x1) * (py - y1) / (y2 - y1) + x1)
    return res


def record(e, skip=()):
    """Scalars of an eddy, for comparing."""
    return {k: v for k, v in e.items() if k not in ("path",) + tuple(skip)}


def close(a, b, rtol=1e-9, atol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same_eddy(a, b, keys=None, rtol=1e-6, atol=1e-8):
    """None or a description of the difference between two eddy records."""
    for k in keys or [k for k in a if k not in ("path", "id", "time")]:
        if k not in b:
            return "%s missing" % k
        if not close(a[k], b[k], rtol, atol):
            return "%s: %r != %r" % (k, a[k], b[k])
    if keys is None:
        if a["path"].shape != b["path"].shape or not np.allclose(a["path"], b["path"], rtol=rtol, atol=atol):
            return "contour path"
    return None


def key_of(e):
    return (round(e["level"], 9), round(e["maxima_x"], 6), round(e["maxima_y"], 6), round(e["area_eddy"], 3))


def match(xs, ys, what, **kw):
    """Two sets of eddies are the same, whatever their order: None or a message."""
    if len(xs) != len(ys):
        return "%s: %d eddies instead of %d: %r / %r" % (
            what, len(ys), len(xs), [key_of(e) for e in ys], [key_of(e) for e in xs])
    rest = list(ys)
    for a in xs:
        best = None
        for b in rest:
            d = same_eddy(a, b, **kw)
            if d is None:
                rest.remove(b)
                break
            best = best or d
        else:
            return "%s: no eddy like %r (%s) in %r" % (what, key_of(a), best, [key_of(e) for e in rest])
    return None


def tables_equal(a, b, rtol=1e-9):
    """Exact comparison of two result tables (None if equal)."""
    if is_empty(a) or is_empty(b):
        return None if is_empty(a) and is_empty(b) else "one of the tables is empty"
    if list(a.columns) != list(b.columns):
        return "columns %r != %r" % (list(a.columns), list(b.columns))
    if len(a) != len(b):
        return "%d rows != %d rows" % (len(a), len(b))
    fa, fb = a.reset_index(), b.reset_index()
    for c in fa.columns:
        u, v = fa[c].to_numpy(), fb[c].to_numpy()
        try:
            ok = np.allclose(u.astype(float), v.astype(float), rtol=rtol, atol=1e-12, equal_nan=True)
        except (TypeError, ValueError):
            ok = [str(x) for x in u] == [str(x) for x in v]
        if not ok:
            return "column %s differs" % c
    return None


def frames(*specs):
    return pd.concat(specs)
