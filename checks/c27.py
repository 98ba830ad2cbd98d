"""C27: filled regions cover exactly the part of the mesh between two levels."""
import itertools
import math

from mc.core import Group
from mc.fill_ref import Chain, area, inside, region, subpaths

BOUNDS = ("every field of below/between/above of 2x2, 2x3, 3x2 and 3x3 meshes (thorough: 3x4, 4x3), on three meshes, "
          "whole and in chunks of 1 and 2; every interior of a 5x5 mesh in every uniform border; every field of five "
          "values, on and between the levels, of 2x2 and 2x3 (thorough: 3x3) meshes; every field of 3x3 with each of "
          "45 (quick: 1/5 of the fields) sets of masked points, whole and in chunks; rings and waves of up to 60x70 points")
ASSUMPTIONS = ["a node exactly on a level counts as below it"]

# origin and step of the regular meshes
STEP = {"regular": ((10, 0.5), (-3, 0.25)), "southward": ((10, 0.5), (3, -0.25))}


def round_out(v, f):
    near = round(v)
    return near if abs(v - near) < 1e-6 else f(v)


def groups(ctx):
    import numpy as np
    from trackeddy._cntr import Cntr

    def mesh(kind, ny, nx):
        i, j = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
        if kind == "regular":
            return i * 0.5 + 10, j * 0.25 - 3
        if kind == "southward":
            return i * 0.5 + 10, 3 - j * 0.25
        return i * 1.0 - 0.3 * j + 0.05 * i * j, 0.4 * i + j + 0.03 * j * j

    def values(classes):
        """Unequal values in the classes, so that every crossing is its own."""
        ny, nx = classes.shape
        m = np.array([[1 + 0.37 * ((3 * j + 5 * i + j * i) % 7) for i in range(nx)] for j in range(ny)])
        return np.where(classes == 0, -m, np.where(classes == 2, m + 1, 0.1 + 0.175 * m))

    def decide(kind, X, Y, Z, lo, hi, chunk, masked, t, ties=False):
        mask = None
        if masked:
            mask = np.zeros(Z.shape, bool)
            for p in masked:
                mask[p] = True
        res = Cntr(X, Y, Z, mask).trace(lo, hi, chunk)
        t.op()
        want = region(X.tolist(), Y.tolist(), Z.tolist(), lo, hi, masked)
        t.state(tuple(sorted(want.items())))
        if not want:
            t.trivial()
        t.check(len(res) % 2 == 0, "%d parts", len(res))
        n = len(res) // 2
        what = "levels %r %r chunk %r masked %r field\n%r\n" % (lo, hi, chunk, masked, Z.tolist())
        got = Chain()
        sign = 1.0
        if X.shape[0] > 1 and (X[0, 1] - X[0, 0]) * (Y[1, 0] - Y[0, 0]) < (Y[0, 1] - Y[0, 0]) * (X[1, 0] - X[0, 0]):
            sign = -1.0
        for verts, codes in zip(res[:n], res[n:]):
            t.check(len(verts) == len(codes), "%d vertices, %d codes", len(verts), len(codes))
            paths = subpaths(verts.tolist(), codes.tolist())
            t.check(paths, "%scodes %r", what, codes.tolist())
            for k, p in enumerate(paths):
                t.check(p[0] == p[-1], "%sthe boundary %r is open", what, p)
                for a, b in zip(p, p[1:]):
                    got.segment(a, b)
                if ties:
                    continue
                s = sign * area(p)
                if chunk and k == 0 and kind in STEP:
                    # in whole zones, of the mesh
                    w, h = [max(c) - min(c) for c in (
                        [round_out((q[n] - o) / d, f) for q in p for f in (math.floor, math.ceil)]
                        for n, (o, d) in enumerate(STEP[kind]))]
                    t.check(w * h <= chunk ** 2, "%sa region of %d x %d zones", what, w, h)
                t.check(s > 0 if k == 0 else s < 0, "%sboundary %d of a region turns the wrong way: %r", what, k, p)
                t.check(k == 0 or inside(p[0], paths[0]), "%sthe hole %r is not in its region %r", what, p, paths[0])
        t.check(got == want, "%sboundary with %r, without %r", what,
                {s: c for s, c in got.items() if want.get(s) != c}, {s: c for s, c in want.items() if got.get(s) != c})

    def run_classes(case, t):
        kind, ny, nx, chunks, masks, code = case
        X, Y = mesh(kind, ny, nx)
        # the last digits vary within the case
        for tail in itertools.product((0, 1, 2), repeat=min(ny * nx, 4)):
            c, digits = code, list(tail)
            while len(digits) < ny * nx:
                digits.append(c % 3)
                c //= 3
            Z = values(np.array(digits).reshape(ny, nx))
            for chunk in chunks:
                for masked in masks:
                    decide(kind, X, Y, Z, 0.0, 1.0, chunk, masked, t)

    def run_interior(case, t):
        border, code = case
        X, Y = mesh("curvilinear", 5, 5)
        for tail in itertools.product((0, 1, 2), repeat=4):
            c, digits = code, list(tail)
            while len(digits) < 9:
                digits.append(c % 3)
                c //= 3
            classes = np.full((5, 5), border)
            classes[1:4, 1:4] = np.array(digits).reshape(3, 3)
            decide(None, X, Y, values(classes), 0.0, 1.0, 0, (), t)

    def run_ties(case, t):
        ny, nx, code = case
        X, Y = mesh("curvilinear", ny, nx)
        v = (-1.0, 0.0, 0.5, 1.0, 2.5)
        for tail in itertools.product(v, repeat=3):
            c, field = code, list(tail)
            while len(field) < ny * nx:
                field.append(v[c % 5])
                c //= 5
            decide(None, X, Y, np.array(field).reshape(ny, nx), 0.0, 1.0, 0, (), t, ties=True)

    def run_large(case, t):
        kind, ny, nx, form, chunk = case
        X, Y = mesh(kind, ny, nx)
        if kind == "curvilinear":
            X, Y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) ** 1.2)
        i, j = np.meshgrid(np.arange(nx), np.arange(ny))
        if form == "rings":
            Z = 0.5 + np.sin(np.hypot(i - nx / 2.1, 1.1 * (j - ny / 1.9)) * 0.8) * 1.13
        else:
            Z = 0.4 + 1.3 * np.sin(0.61 * i + 0.2) * np.cos(0.53 * j + 0.1) + 0.3 * np.sin(1.9 * i + 0.7 * j)
        decide(kind, X, Y, Z, 0.0, 1.0, chunk, (), t)

    pairs = [((k // 3, k % 3),) for k in range(9)] + [((a // 3, a % 3), (b // 3, b % 3)) for a, b in itertools.combinations(range(9), 2)]
    for ny, nx in ((2, 2), (2, 3), (3, 2), (3, 3)):
        yield Group("classes_%dx%d" % (ny, nx), [(kind, ny, nx, (0, 1, 2), ((),), c) for kind in ("curvilinear", "southward", "regular")
                                                 for c in range(3 ** (ny * nx - 4))], run_classes)
    yield Group("interior", [(b, c) for b in (0, 1, 2) for c in range(3 ** 5)], run_interior)
    yield Group("masked", [("curvilinear", 3, 3, (0, 1), pairs, c) for c in range(0, 3 ** 5, ctx.pick(5, 1))], run_classes)
    yield Group("ties_2x2", [(2, 2, c) for c in range(5)], run_ties)
    yield Group("ties_2x3", [(2, 3, c) for c in range(5 ** 3)], run_ties)
    yield Group("large", [(kind, ny, nx, form, chunk) for kind in ("regular", "southward", "curvilinear") for ny, nx in ((30, 40), (60, 70), (9, 70))
                          for form in ("rings", "waves") for chunk in (0, 2, 5, 12, 30, 200)], run_large)
    if ctx.thorough:
        for ny, nx in ((3, 4), (4, 3)):
            yield Group("classes_%dx%d" % (ny, nx), [("curvilinear", ny, nx, (0, 1), ((),), c) for c in range(3 ** 8)], run_classes)
        yield Group("ties_3x3", [(3, 3, c) for c in range(5 ** 6)], run_ties)
