"""C01: contours of a level are exactly the crossings of the mesh."""
import itertools

from mc.contour_ref import cut_edges, verify
from mc.core import Group

BOUNDS = ("all above/below patterns of 3x3, 3x4, 4x3 and 4x4 grids (thorough: 4x5, 5x4), all 3-value "
          "fields of 3x3 grids at every level between and on the values, all interior patterns of 5x5; "
          "every placement of up to 2 masked points on 3x3 grids, and of missing points on 3x4 grids; meshes of up to 69000 points, long, tall and square; "
          "on a regular, a non-uniform and a curvilinear mesh with unequal magnitudes at every node")
ASSUMPTIONS = ["a node exactly on the level counts as below it, on every edge alike"]


def groups(ctx):
    import numpy as np
    from trackeddy._cntr import Cntr
    from trackeddy.geometry import extract_contours

    # Unequal, non symmetric magnitudes, so an interpolation with the wrong
    # node, the wrong weight or swapped coordinates moves a vertex.
    def mags(ny, nx):
        return np.array([[1 + 0.37 * ((3 * j + 5 * i + j * i) % 7) for i in range(nx)]
                         for j in range(ny)])

    def mesh(kind, ny, nx):
        i, j = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
        if kind == "regular":
            return i * 0.5 + 10, j * 0.25 - 3
        if kind == "nonuniform":
            return i ** 1.5 + 0.2, -2.0 + j ** 1.3
        return i * 1.0 - 0.3 * j + 0.05 * i * j, 0.4 * i + j + 0.03 * j * j

    def pattern(bits, ny, nx):
        m = mags(ny, nx)
        s = np.array([(bits >> k) & 1 for k in range(ny * nx)]).reshape(ny, nx)
        return np.where(s == 1, m, -m)

    def decide(X, Y, Z, level, t):
        seg, codes = extract_contours(X, Y, Z, level)
        t.op()
        t.state(sorted(tuple(map(tuple, np.round(s, 9))) for s in seg))
        if not len(seg):
            t.trivial()
        paths = [[(float(a), float(b)) for a, b in s] for s in seg]
        t.check(len(codes) == len(seg), "%d codes for %d contours", len(codes), len(seg))
        for s, c in zip(seg, codes):
            t.check(len(s) == len(c), "contour with %d vertices and %d codes", len(s), len(c))
        bad = verify(X.tolist(), Y.tolist(), Z.tolist(), level, paths)
        t.check(bad is None, "%s\nlevel %r field\n%r\ncontours %r", bad, level, Z.tolist(), paths)

    def run_binary(case, t):
        kind, ny, nx, bits = case
        X, Y = mesh(kind, ny, nx)
        decide(X, Y, pattern(bits, ny, nx), 0.0, t)

    def run_interior(case, t):
        n, bits, level = case
        X, Y = mesh("curvilinear", n, n)
        Z = -mags(n, n)
        m = n - 2
        for k in range(m * m):
            if (bits >> k) & 1:
                j, i = 1 + k // m, 1 + k % m
                Z[j, i] = -Z[j, i]
        decide(X, Y, Z if level >= 0 else -Z, 0.25 * level, t)

    def run_values(case, t):
        ny, nx, vals = case
        X, Y = mesh("regular", ny, nx)
        Z = np.array(vals, dtype=float).reshape(ny, nx)
        for level in (0.5, 1.0, 1.5, 0.0, 2.0, -1.0):
            decide(X, Y, Z, level, t)

    def run_types(case, t):
        # the representation of the field does not matter
        order, dtype, bits = case
        X, Y = mesh("curvilinear", 4, 4)
        Z = np.round(pattern(bits, 4, 4) * 100)
        if order == "strided":
            A = np.zeros((8, 8), dtype=dtype)
            A[::2, ::2] = Z
            A = A[::2, ::2]
        else:
            A = np.array(Z, dtype=dtype, order=order)
        seg, _ = extract_contours(X, Y, A, 50)
        t.op()
        bad = verify(X.tolist(), Y.tolist(), Z.tolist(), 50.0,
                     [[(float(a), float(b)) for a, b in s] for s in seg])
        t.check(bad is None, "%s %r", bad, case)
        t.state(len(seg), bits)

    def run_big(case, t):
        # every pair of a closed ring, on a larger rectangular mesh
        ny, nx, r, c, w, h = case
        X, Y = mesh("curvilinear", ny, nx)
        Z = -mags(ny, nx)
        Z[r:r + h, c:c + w] = mags(ny, nx)[r:r + h, c:c + w]
        decide(X, Y, Z, 0.1, t)
        decide(X, Y, -Z, 0.1, t)
        Z2 = Z.copy()
        Z2[r + h // 2, c + w // 2] = -9
        decide(X, Y, Z2, -0.1, t)

    def run_large(case, t):
        # more points than a small integer counts, contours at both ends
        ny, nx, level = case
        i, j = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
        X, Y = i * 0.5 + 0.1 * j, j * 0.25 - 3 + 0.03 * i
        Z = np.sin(0.37 * i + 0.2) * np.cos(0.23 * j + 0.1) + 0.2 * np.sin(1.9 * i + 0.7 * j)
        decide(X, Y, Z, level, t)

    def run_masked(case, t):
        """Masked points are outside of the mesh, with the cells around them."""
        kind, ny, nx, bits, masked = case
        X, Y = mesh(kind, ny, nx)
        Z = pattern(bits, ny, nx)
        mask = np.zeros((ny, nx), dtype=[bool, np.int8][bits % 2])
        points = {(k // nx, k % nx) for k in masked}
        for j, i in points:
            mask[j, i] = 1
        res = Cntr(X, Y, Z, mask).trace(0.0)
        t.op()
        seg = res[:len(res) // 2]
        paths = [[(float(a), float(b)) for a, b in s] for s in seg]
        t.state(paths)
        bad = verify(X.tolist(), Y.tolist(), Z.tolist(), 0.0, paths, masked=points)
        t.check(bad is None, "%s\nmask %r field\n%r\ncontours %r", bad, sorted(points), Z.tolist(), paths)

    def run_missing(case, t):
        """Every edge between valid points is crossed as it is without missing points."""
        ny, nx, bits, missing, sign = case
        X, Y = mesh("curvilinear", ny, nx)
        Z = sign * pattern(bits, ny, nx)
        for k in missing:
            Z[k // nx, k % nx] = np.nan
        seg, _ = extract_contours(X, Y, Z, 0.0)
        t.op()
        got = sorted((round(float(a), 9), round(float(b), 9)) for s in seg for a, b in (s[:-1] if tuple(s[0]) == tuple(s[-1]) else s)
                     if a == a and b == b)
        want = sorted((round(a, 9), round(b, 9)) for a, b in cut_edges(X.tolist(), Y.tolist(), Z.tolist(), 0.0).values() if a == a and b == b)
        t.state(want)
        t.check(np.allclose(got, want, atol=1e-8) if len(got) == len(want) else False, "missing %r: crossings %r instead of %r", case, got, want)
        for s in seg:
            ok = np.isfinite(s).all(1)
            t.check((np.isnan(s).any(1) == ~ok).all(), "vertices %r", s.tolist())

    yield Group("masked_3x3", [(k, 3, 3, b, m) for k in ("nonuniform",) for b in range(512)
                               for m in [(n,) for n in range(9)] + list(itertools.combinations(range(9), 2))], run_masked)
    yield Group("masked_4x4", [("curvilinear", 4, 4, b, m) for b in range(0, 65536, ctx.pick(31, 1)) for m in ((5,), (0, 15), (5, 6), (2,), (3, 9))], run_masked)
    yield Group("missing", [(3, 4, b, m, s) for b in range(4096) for m in ((0,), (5,), (6, 11), (1, 9)) for s in (1, -1)], run_missing)
    yield Group("large", [(ny, nx, v) for ny, nx in ((2, 17000), (17000, 2), (190, 181), (130, 261), (270, 250), (3, 23000), (23000, 3))
                          for v in (0.0, 0.5, -0.7)], run_large)
    yield Group("binary_3x3", [(k, 3, 3, b) for k in ("regular", "nonuniform", "curvilinear")
                               for b in range(512)], run_binary)
    yield Group("binary_3x4", [(k, 3, 4, b) for k in ("nonuniform",) for b in range(4096)], run_binary)
    yield Group("binary_4x3", [(k, 4, 3, b) for k in ("curvilinear",) for b in range(4096)], run_binary)
    yield Group("binary_2xn", [("nonuniform", 2, n, b) for n in range(2, 8) for b in range(2 ** (2 * n))]
                + [("nonuniform", n, 2, b) for n in range(3, 7) for b in range(2 ** (2 * n))], run_binary)
    yield Group("binary_4x4", [("curvilinear", 4, 4, b) for b in range(65536)], run_binary)
    yield Group("interior_5x5", [(5, b, s) for b in range(512) for s in (-1, 1)], run_interior)
    yield Group("values_3x3", [(3, 3, v) for v in itertools.product((0, 1, 2), repeat=9)][::1], run_values)
    yield Group("types", [(o, d, b) for o in ("C", "F", "strided") for d in ("f8", "f4", "i4", "i8")
                          for b in range(0, 65536, 257)], run_types)
    yield Group("rectangles", [(ny, nx, r, c, w, h) for ny, nx in ((7, 9), (9, 6)) for r in range(0, ny)
                               for c in range(0, nx) for h in range(1, ny - r + 1)
                               for w in range(1, nx - c + 1)], run_big)
    if ctx.thorough:
        yield Group("binary_4x5", [("curvilinear", 4, 5, b) for b in range(2 ** 20)], run_binary)
        yield Group("binary_5x4", [("nonuniform", 5, 4, b) for b in range(2 ** 20)], run_binary)
        yield Group("interior_6x6", [(6, b, s) for b in range(65536) for s in (-1, 1)], run_interior)
