"""Reference models of the merging of levels and of the tracking of eddies, and
scripted tables of eddies to drive the real ones."""
import numpy as np
import pandas as pd

from .world import haversine


class Ambiguous(Exception):
    """Two eddies are at the same distance: either outcome is right."""


EPS = 1e-6


def nearest_claims(prev, new):
    """Which new eddies have their nearest previous eddy within their radius:
    [(distance, index of new, index of prev)], the closest first."""
    claims = []
    if not prev:
        return claims
    for k, n in enumerate(new):
        d = [haversine(n["maxima_y"], n["maxima_x"], p["maxima_y"], p["maxima_x"]) for p in prev]
        order = sorted(range(len(d)), key=d.__getitem__)
        best = d[order[0]]
        if abs(best - n["radius_eddy"]) < EPS * max(1, best):
            raise Ambiguous()
        if best >= n["radius_eddy"]:
            continue
        if len(order) > 1 and d[order[1]] - best < EPS:
            raise Ambiguous()
        claims.append((best, k, order[0]))
    claims.sort()
    for a in claims:
        for b in claims:
            if a[1] != b[1] and a[2] == b[2] and abs(a[0] - b[0]) < EPS:
                raise Ambiguous()
    return claims


def merge_level(joint, new):
    """Eddies of the snapshot after one more level."""
    if not joint or not new:
        return list(joint) + list(new)
    kept = {k: n for k, n in enumerate(new)}
    gone = set()
    for _, k, p in nearest_claims(joint, new):
        old, cur = joint[p], new[k]
        if (old["contour_ellipse_error"] > cur["contour_ellipse_error"]
                and old["contour_gaussian_error"] > cur["contour_gaussian_error"]):
            gone.add(p)
        else:
            del kept[k]
    return [p for i, p in enumerate(joint) if i not in gone] + list(kept.values())


def merge_levels(tables):
    joint = []
    for new in tables:
        joint = merge_level(joint, new)
    return joint


class Tracks:
    """Reference tracker. tracks: {id: [(time, record)]}."""

    def __init__(self, ntimes):
        self.ntimes = ntimes
        self.tracks = {}

    def step(self, time, new):
        """Advance over the detections of one snapshot; returns the identifiers
        of those that continue a track: {index of new: id} (the others start a
        track of their own)."""
        ids = [i for i, tr in self.tracks.items() if time - 1 - self.ntimes <= tr[-1][0] <= time - 1]
        prev = [self.tracks[i][-1][1] for i in ids]
        cont = {}
        for _, k, p in nearest_claims(prev, new):
            if ids[p] not in cont.values():
                cont[k] = ids[p]
        return cont

    def commit(self, time, new, cont, fresh):
        """fresh: {index of new: id} chosen for the eddies starting a track."""
        for k, n in enumerate(new):
            i = cont.get(k, fresh.get(k))
            self.tracks.setdefault(i, []).append((time, n))


COLUMNS = ["contour_path_x", "contour_path_y", "level", "area_eddy", "radius_eddy", "ellipse_params_a",
           "ellipse_params_b", "ellipse_params_theta", "contour_ellipse_error", "ellipse_eccen", "contour_x",
           "contour_y", "eddy_sign", "maxima", "maxima_y", "maxima_x", "gaussian_params_x", "gaussian_params_y",
           "gaussian_params_sigma_x", "gaussian_params_sigma_y", "gaussian_params_theta", "contour_gaussian_error"]


def scripted(lon, lat, radius=60.0, ell=0.5, gau=0.9, tag=0.0, level=0.5, sign=1.0, n=3):
    """One eddy, as a record; tag tells it from all others."""
    e = {"level": level, "area_eddy": float(tag), "radius_eddy": float(radius), "ellipse_params_a": 1 + 0.001 * tag,
         "ellipse_params_b": 0.5 + 0.001 * tag, "ellipse_params_theta": 0.1, "contour_ellipse_error": float(ell),
         "ellipse_eccen": 0.3, "contour_x": lon + 0.01, "contour_y": lat - 0.02, "eddy_sign": sign,
         "maxima": sign * (1 + 0.01 * tag), "maxima_y": float(lat), "maxima_x": float(lon),
         "gaussian_params_x": lon, "gaussian_params_y": lat, "gaussian_params_sigma_x": 0.4,
         "gaussian_params_sigma_y": 0.3, "gaussian_params_theta": 0.2, "contour_gaussian_error": float(gau)}
    k = np.arange(n + 1)
    e["path"] = np.c_[lon + 0.1 * np.cos(2 * np.pi * k / n) + 1e-4 * tag, lat + 0.1 * np.sin(2 * np.pi * k / n)]
    return e


def table(records):
    """The table _detect_one_level and _detect_snapshot return for these eddies."""
    if not records:
        return pd.DataFrame({"": []})
    rows = {c: [] for c in COLUMNS}
    ident, index = [], []
    for i, e in enumerate(records):
        m = len(e["path"])
        for c in COLUMNS[2:]:
            rows[c] += [e[c]] * m
        rows["contour_path_x"] += e["path"][:, 0].tolist()
        rows["contour_path_y"] += e["path"][:, 1].tolist()
        ident += [i] * m
        index += range(m)
    df = pd.DataFrame(rows, columns=COLUMNS)
    df.insert(0, "index", index)
    df.insert(1, "identifier", ident)
    return df.set_index(["identifier", "index"])


def same_record(a, b):
    """None, or what differs between a record and one read from a table."""
    for c in COLUMNS[2:]:
        if c in a and c in b:
            x, y = float(a[c]), float(b[c])
            if not (abs(x - y) <= 1e-9 * max(1, abs(x)) or (x != x and y != y)):
                return "%s: %r != %r" % (c, a[c], b[c])
    if a["path"].shape != b["path"].shape or not np.allclose(a["path"], b["path"], rtol=1e-12, equal_nan=True):
        return "contour path"
    return None


def pair_up(expected, got):
    """{index in got: index in expected} if both hold the same records, else a message."""
    out, rest = {}, list(range(len(expected)))
    for j, g in enumerate(got):
        for i in rest:
            if same_record(expected[i], g) is None:
                out[j] = i
                rest.remove(i)
                break
        else:
            return "no detection like %r" % brief(g)
    if rest:
        return "lost %r" % [brief(expected[i]) for i in rest]
    return out


def brief(e):
    return {k: round(e[k], 4) for k in ("level", "area_eddy", "maxima_x", "maxima_y", "radius_eddy",
                                        "contour_ellipse_error", "contour_gaussian_error")}
