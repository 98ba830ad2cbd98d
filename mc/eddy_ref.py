"""Reference for the detection at one level: what happens to every contour of a
field, and what is reported about it."""
import math

import numpy as np

from .core import Violation
from .world import discarded, eddies, inside, polygon_area

DEFAULT = {"ellipse_fit": 0.85, "eccentricity": 0.85, "gaussian_fit": 0.8, "max_area": 2 * math.pi}


def rossby(lat):
    c = 0.15
    return 200 * math.exp(-lat ** 2 / 2 * c ** 2) + 60 * math.exp(-lat ** 2 / 40 * c ** 2)


def area_slack(path):
    """Accepted relative error of the area of a coarse contour. It is integrated
    around the point (0, 0), so it is coarser next to it."""
    c = path.mean(0)
    lon = (c[0] + 90) % 180 - 90
    near = max(abs(lon), abs(c[1])) < 3 * np.ptp(path, axis=0).max()
    n = len(path)
    # The last term is the rounding of an integral over the sphere, in km^2.
    return (30.0 if near else 10.0) / n ** 2 + 1e-6 + 2e-8 * n / max(polygon_area(path), 1e-30)


def ellipse_axes(path):
    """Axes of the least squares conic of the points, or None if not an ellipse."""
    p = path - path.mean(0)
    scale = np.abs(p).max()
    if not scale > 0:
        return None
    x, y = (p / scale).T
    D = np.c_[x * x, x * y, y * y, x, y]
    sv = np.linalg.svd(D, compute_uv=False)
    if sv[-1] < 1e-6 * sv[0]:
        return None
    q = np.linalg.lstsq(D, np.ones(len(x)), rcond=None)[0]
    M = np.array([[q[0], q[1] / 2], [q[1] / 2, q[2]]])
    w, V = np.linalg.eigh(M)
    if w[0] * w[1] <= 0:
        return None
    c = np.linalg.solve(-2 * M, q[3:])
    F = 1 + c @ M @ c
    ab = F / w
    if not (ab > 0).all():
        return None
    a, b = math.sqrt(ab.max()), math.sqrt(ab.min())
    if a > 100 or b < 1e-4:
        return None                                   # parallel lines, or one line
    v = V[:, np.argmax(ab)]
    return a * scale, b * scale, math.atan2(v[1], v[0])


def frechet_np(P, Q):
    d = np.hypot(P[:, None, 0] - Q[None, :, 0], P[:, None, 1] - Q[None, :, 1])
    n, m = d.shape
    prev = np.maximum.accumulate(d[0]).tolist()
    for i in range(1, n):
        row = d[i].tolist()
        cur = [max(prev[0], row[0])]
        for j in range(1, m):
            r = min(prev[j], prev[j - 1], cur[-1])
            cur.append(r if r > row[j] else row[j])
        prev = cur
    return prev[-1]


def curve_length(p):
    return float(np.hypot(*np.diff(p, axis=0).T).sum())


def score(P, Q):
    return max(0.0, 1 - frechet_np(P, Q) * math.sqrt(2) / math.sqrt(curve_length(P) * curve_length(Q)))


class Masks:
    """Grid points enclosed by a contour, and the ones nearest to its vertices."""

    def __init__(self, path, X, Y):
        self.core = inside(path, X, Y)
        dx = np.abs(np.diff(X, axis=1)).max() if X.shape[1] > 1 else 1
        ring = np.zeros(X.shape, bool)
        xs, ys = X.ravel(), Y.ravel()
        for vx, vy in path:
            d = (xs - vx) ** 2 + (ys - vy) ** 2
            ring.ravel()[d <= d.min() * (1 + 1e-6) + 1e-12 * dx] = True
        self.ring = ring
        self.all = self.core | ring


def degenerate(path):
    """Whether a contour is a line or a point, up to rounding."""
    p = path - path.mean(0)
    return np.abs(p).max() < 3e-5 or np.linalg.svd(p, compute_uv=False)[-1] < 1e-5 * np.abs(p).max()


def allowed_outcomes(path, field, X, Y, crit, skip):
    """Set of admissible outcomes of a contour (several only next to a threshold)."""
    from trackeddy.geometry import fit_ellipse
    out = set()
    n = len(path)
    if not (path[0] == path[-1]).all():
        return {"area", "open"}                       # an open path encloses no area
    if len(np.unique(np.round(path, 9), axis=0)) < 6:
        return None                                   # too few points to determine an ellipse
    area = polygon_area(path)
    slack = area_slack(path)
    if degenerate(path):
        return None
    radius = math.sqrt(area / math.pi)
    lim = crit["max_area"] * rossby(path[:, 1].mean())
    if abs(radius - lim) <= max(2 * slack, 1e-3) * lim:
        out.add("area")
    elif radius > lim:
        return {"area"}
    ax = ellipse_axes(path)
    if ax is None:
        return None
    ell, par = fit_ellipse(path[:, 0].copy(), path[:, 1].copy())
    if abs(par[0] / ax[0] - 1) > 5e-3 or abs(par[1] / ax[1] - 1) > 5e-3:
        raise Violation("the fitted ellipse has axes %r instead of %r" % (par[:2], ax[:2]))
    ea = polygon_area(ell)
    d, tol = abs(area - ea), 0.1 * crit["ellipse_fit"] * ea
    if abs(d - tol) <= 2.5 * slack * ea + 1e-3 * ea:
        out.add("ellipse_area")
    elif d > tol:
        return out | {"ellipse_area"}
    ecc = math.sqrt(max(0.0, 1 - (ax[1] / ax[0]) ** 2))
    if abs(ecc - crit["eccentricity"]) < 8e-3:
        out.add("eccentricity")
    elif ecc > crit["eccentricity"]:
        return out | {"eccentricity"}
    s = score(path, ell)
    if abs(s - crit["ellipse_fit"]) < 3e-4:
        out.add("similarity")
    elif s > crit["ellipse_fit"]:
        return out | {"similarity"}
    m = Masks(path, X, Y)
    core, every = field[m.core], field[m.all]
    if not every.any():
        return out | {"eddy_is_island"}
    if not core.any() or abs(every.mean()) < 1e-9:
        out.add("eddy_is_island")
    out.add("stored")
    if not skip:
        if crit["gaussian_fit"] > 0:
            out.add("gaussian_check")
        if crit["gaussian_fit"] > 1.00001:
            out.discard("stored")
        out.add("gaussian_fit_failed")
    return out


def check_attributes(e, level, field, X, Y, crit, skip, t):
    """The attributes reported for an eddy are those of its contour and of the field."""
    path = e["path"]
    n = len(path)
    who = "eddy at level %r, contour centre %r: " % (level, path.mean(0).tolist())
    t.check(e["level"] == level, who + "level %r", e["level"])
    t.check(n >= 5 and (path[0] == path[-1]).all(), who + "its contour is not closed")
    area = polygon_area(path)
    slack = area_slack(path)
    t.check(abs(e["area_eddy"] - area) <= slack * area, who + "area %r instead of %r", e["area_eddy"], area)
    r = math.sqrt(e["area_eddy"] / math.pi)
    t.check(abs(e["radius_eddy"] - r) <= 1e-6 * r, who + "radius %r instead of %r", e["radius_eddy"], r)
    lim = crit["max_area"] * rossby(path[:, 1].mean())
    t.check(e["radius_eddy"] <= lim * 1.001, who + "radius %r above the limit %r", e["radius_eddy"], lim)
    c = path.mean(0)
    t.check(abs(e["contour_x"] - c[0]) + abs(e["contour_y"] - c[1]) <= 1e-6,
            who + "centre %r", (e["contour_x"], e["contour_y"]))
    a, b = e["ellipse_params_a"], e["ellipse_params_b"]
    t.check(a >= b > 0, who + "ellipse axes %r %r", a, b)
    ax = ellipse_axes(path)
    if ax is not None:
        t.check(abs(a / ax[0] - 1) < 5e-3 and abs(b / ax[1] - 1) < 5e-3, who + "ellipse axes %r instead of %r", (a, b), ax)
        if ax[1] < 0.9 * ax[0]:
            d = (e["ellipse_params_theta"] - ax[2]) % math.pi
            t.check(min(d, math.pi - d) < 0.02, who + "orientation %r instead of %r", e["ellipse_params_theta"], ax[2])
    ecc = math.sqrt(max(0.0, 1 - (b / a) ** 2))
    t.check(abs(e["ellipse_eccen"] ** 2 - ecc ** 2) < 1e-9, who + "eccentricity %r instead of %r", e["ellipse_eccen"], ecc)
    t.check(e["ellipse_eccen"] <= crit["eccentricity"], who + "eccentricity %r above %r", e["ellipse_eccen"], crit["eccentricity"])
    t.check(0 <= e["contour_ellipse_error"] <= 1 and e["contour_ellipse_error"] <= crit["ellipse_fit"] + 1e-9,
            who + "ellipse score %r", e["contour_ellipse_error"])

    m = Masks(path, X, Y)
    sign, mx = e["eddy_sign"], e["maxima"]
    t.check(sign in (1.0, -1.0), who + "sign %r", sign)
    core, every = field[m.core], field[m.all]
    lo, hi = sorted((core.mean() if core.size else every.mean(), every.mean()))
    # mean over any set between core and core+ring nodes
    ringv = field[m.all & ~m.core]
    if core.size:
        worst_lo = min(lo, (core.sum() + ringv[ringv < 0].sum()) / every.size)
        worst_hi = max(hi, (core.sum() + ringv[ringv > 0].sum()) / every.size)
    else:
        worst_lo, worst_hi = lo, hi
    if worst_lo > 0 or worst_hi < 0:
        t.check(sign == (1 if worst_lo > 0 else -1), who + "sign %r of an eddy with values %r", sign, (lo, hi))
    top = (sign * every).max()
    bottom = (sign * core).max() if core.size else -math.inf
    t.check(bottom - 1e-12 <= sign * mx <= top + 1e-12, who + "extremum %r, the field has %r", mx, sign * top)
    jj, ii = np.nonzero(np.isclose(X, e["maxima_x"], rtol=1e-9, atol=1e-9) & np.isclose(Y, e["maxima_y"], rtol=1e-9, atol=1e-9))
    t.check(len(jj) == 1, who + "the extremum is not on a grid point: %r", (e["maxima_x"], e["maxima_y"]))
    j, i = jj[0], ii[0]
    t.check(abs(field[j, i] - mx) <= 1e-9 * max(1, abs(mx)), who + "extremum %r, the field is %r there", mx, field[j, i])
    t.check(m.all[j, i], who + "the extremum %r is outside the contour", (e["maxima_x"], e["maxima_y"]))
    if not skip:
        t.check(crit["gaussian_fit"] - 1e-9 <= e["contour_gaussian_error"] <= 1, who + "Gaussian score %r",
                e["contour_gaussian_error"])
        t.check("gaussian_params_x" in e, who + "no Gaussian parameters")
        dx = np.abs(np.diff(X, axis=1)).max()
        dy = np.abs(np.diff(Y, axis=0)).max()
        t.check(abs(e["gaussian_params_x"] - e["maxima_x"]) <= dx * 1.01 + 1e-9
                and abs(e["gaussian_params_y"] - e["maxima_y"]) <= dy * 1.01 + 1e-9, who + "Gaussian centred at %r",
                (e["gaussian_params_x"], e["gaussian_params_y"]))
        for g, v in (("gaussian_params_sigma_x", a), ("gaussian_params_sigma_y", b)):
            t.check(0.3 * v * 0.999 <= e[g] <= 1.7 * v * 1.001, who + "%s %r for an axis %r", g, e[g], v)


def judge(tr, level, field, X, Y, crit, skip, t, extent=None):
    """Run the detection at a level and decide every contour. Returns (stored, discarded)."""
    from trackeddy.geometry import extract_contours
    paths = [np.asarray(p) for p in extract_contours(X, Y, field, level)[0]]
    table, gone = tr._detect_one_level(level)
    t.op()
    found = eddies(table)
    lost = discarded(gone)
    t.state([sorted((round(e["contour_x"], 6), round(e["area_eddy"], 6)) for e in found)],
            sorted(str(r.get("reason")) for r in lost))
    t.check(sorted(e["id"] for e in found) == list(range(len(found))), "identifiers %r", [e["id"] for e in found])
    outcomes = []
    left_f, left_l = list(found), list(lost)
    for p in paths:
        if np.ptp(p, axis=0).max() < 1e-9:
            continue
        point = np.ptp(p, axis=0).max() < 1e-7        # may be taken for a single point
        if np.isnan(p).any():
            continue
        ok = allowed_outcomes(p, field, X, Y, crit, skip)
        mine = [e for e in left_f if e["path"].shape == p.shape and np.allclose(e["path"], p, atol=1e-9)]
        if mine:
            e = mine[0]
            left_f.remove(e)
            t.check(ok is None or "stored" in ok, "contour around %r is an eddy, expected %r", p.mean(0).tolist(), ok)
            if not degenerate(p):
                check_attributes(e, level, field, X, Y, crit, skip, t)
            outcomes.append("stored")
            continue
        c = p.mean(0)
        rec = [r for r in left_l if abs(r["contour_x"] - c[0]) + abs(r["contour_y"] - c[1]) < 1e-6]
        if not rec and point:
            continue
        if not rec:
            # not reported at all: only for contours that are not closed, if so documented
            t.check(ok is not None and "open" in ok, "contour around %r (%d points) is neither an eddy nor discarded, expected %r",
                    c.tolist(), len(p), ok)
            outcomes.append("dropped")
            continue
        if len(rec) > 1 and ok is not None:
            rec = [r for r in rec if str(r["reason"]) in ok] or rec
        r = rec[0]
        left_l.remove(r)
        reason = str(r["reason"])
        if ok is not None:
            good = reason in ok or ("open" in ok and "open" in reason)
            t.check(good, "contour around %r is discarded for %r, expected %r", c.tolist(), reason, ok)
        t.check(float(r["level"]) == level, "discarded contour at level %r instead of %r", r["level"], level)
        area = polygon_area(p)
        if ok is not None:
            t.check(abs(float(r["area_eddy"]) - area) <= area_slack(p) * area or not (p[0] == p[-1]).all(),
                    "discarded contour of area %r instead of %r", r["area_eddy"], area)
        if reason == "gaussian_check":
            t.check(float(r["contour_gaussian_error"]) < crit["gaussian_fit"], "Gaussian score %r reported as failing %r",
                    r["contour_gaussian_error"], crit["gaussian_fit"])
        outcomes.append(reason)
    t.check(not left_f, "%d eddies without a contour in the field: %r", len(left_f),
            [(e["level"], e["contour_x"], e["contour_y"]) for e in left_f])
    t.check(not left_l, "%d discarded contours that are not in the field: %r", len(left_l), left_l[:2])
    return found, lost, outcomes
