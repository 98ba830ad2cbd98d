"""Reference for contour extraction: which mesh edges are cut, and where."""
import math


def cut_edges(X, Y, Z, level):
    """{edge: (x, y)} of every mesh edge with one end above the level."""
    ny, nx = len(Z), len(Z[0])
    out = {}
    for j in range(ny):
        for i in range(nx):
            for dj, di in ((0, 1), (1, 0)):
                j2, i2 = j + dj, i + di
                if j2 >= ny or i2 >= nx:
                    continue
                a, b = Z[j][i], Z[j2][i2]
                if (a > level) != (b > level):
                    w = (level - a) / (b - a)
                    out[((j, i), (j2, i2))] = (X[j][i] + w * (X[j2][i2] - X[j][i]),
                                               Y[j][i] + w * (Y[j2][i2] - Y[j][i]))
    return out


def cell_edges(j, i):
    return (((j, i), (j, i + 1)), ((j + 1, i), (j + 1, i + 1)),
            ((j, i), (j + 1, i)), ((j, i + 1), (j + 1, i + 1)))


def is_boundary(edge, ny, nx):
    (j, i), (j2, i2) = edge
    if j == j2:
        return j == 0 or j == ny - 1
    return i == 0 or i == nx - 1


def verify(X, Y, Z, level, paths, tol=1e-9, masked=()):
    """None, or what is wrong with the extracted paths.

    paths: list of lists of (x, y). Exactly the cut edges are crossed, each
    once, at the interpolated point; consecutive points cut the same cell, each
    cell is crossed cuts/2 times; a path is closed, or goes from one edge of the
    domain to another. The cells around masked points, a set of (j, i), are not
    part of the domain.
    """
    ny, nx = len(Z), len(Z[0])
    cuts = cut_edges(X, Y, Z, level)
    invalid = {(j - dj, i - di) for j, i in masked for dj in (0, 1) for di in (0, 1)}
    if masked:
        valid = {e for j in range(ny - 1) for i in range(nx - 1) if (j, i) not in invalid for e in cell_edges(j, i)}
        cuts = {e: p for e, p in cuts.items() if e in valid}
    at = {}
    for e, (x, y) in cuts.items():
        at.setdefault((round(x / tol / 10), round(y / tol / 10)), []).append(e)

    def lookup(p):
        kx, ky = p[0] / tol / 10, p[1] / tol / 10
        found = []
        for ax in {math.floor(kx), math.ceil(kx)}:
            for ay in {math.floor(ky), math.ceil(ky)}:
                for e in at.get((ax, ay), ()):
                    q = cuts[e]
                    if abs(q[0] - p[0]) <= tol and abs(q[1] - p[1]) <= tol and e not in found:
                        found.append(e)
        return found

    cell_of = {}
    for e in cuts:
        (j, i), (j2, i2) = e
        cells = []
        if j == j2:
            for jj in (j - 1, j):
                if 0 <= jj < ny - 1:
                    cells.append((jj, i))
        else:
            for ii in (i - 1, i):
                if 0 <= ii < nx - 1:
                    cells.append((j, ii))
        cell_of[e] = [c for c in cells if c not in invalid]

    count = {}
    unique = True
    segs = {}
    total = slack = 0
    for p in paths:
        if len(p) < 2:
            return "a path of %d point(s): %r" % (len(p), p)
        hits = []
        for v in p:
            h = lookup(v)
            if not h:
                return "vertex %r is not where a mesh edge crosses level %r" % (tuple(v), level)
            unique = unique and len(h) == 1
            hits.append(h)
        closed = tuple(p[0]) == tuple(p[-1])
        if not closed:
            for h in (hits[0], hits[-1]):
                if not any(is_boundary(e, ny, nx) or masked and len(cell_of[e]) == 1 for e in h):
                    return "an open path ends inside the domain at %r" % (cuts[h[0]],)
        body = hits[:-1] if closed else hits
        total += len(body)
        if closed and len(hits[0]) > 1:
            # Nodes on the level: two crossings in the same place, so the path
            # may be open and only look closed.
            slack += 1
        for h in body:
            key = tuple(sorted(h))
            count[key] = count.get(key, 0) + 1
        for h1, h2 in zip(hits, hits[1:]):
            shared = set()
            for e1 in h1:
                for e2 in h2:
                    if e1 != e2:
                        shared |= set(cell_of[e1]) & set(cell_of[e2])
            if not shared:
                return "consecutive vertices %r %r do not cut the same cell" % (
                    cuts[h1[0]], cuts[h2[0]])
            if len(h1) == len(h2) == 1:
                if len(shared) == 1:
                    c = next(iter(shared))
                    segs.setdefault(c, []).append((h1[0], h2[0]))
    if not total <= len(cuts) <= total + slack:
        return "%d vertices for %d crossed mesh edges" % (total, len(cuts))
    if unique:
        for e in cuts:
            if count.get((e,), 0) != 1:
                return "mesh edge %r is crossed %d times" % (e, count.get((e,), 0))
        if min(ny, nx) > 1:
            for c, ss in segs.items():
                used = [e for s in ss for e in s]
                if len(used) != len(set(used)):
                    return "cell %r is crossed twice through the same edge" % (c,)
                n = sum(1 for e in cell_edges(*c) if e in cuts)
                if len(ss) != n // 2:
                    return "cell %r has %d cut edges and %d segments" % (c, n, len(ss))
                if n == 4:
                    # A saddle: the sides of the mean of the corners are joined.
                    j, i = c
                    mean = sum(Z[jj][ii] for jj in (j, j + 1) for ii in (i, i + 1)) / 4
                    if abs(mean - level) < 1e-6 * (1 + abs(level)):
                        continue
                    for e1, e2 in ss:
                        corner = set(e1) & set(e2)
                        if not corner:
                            return "a segment goes straight through the saddle %r" % (c,)
                        jj, ii = corner.pop()
                        if (Z[jj][ii] > level) == (mean > level):
                            return "the contour joins the wrong corners of the saddle %r, of mean %r" % (c, mean)
    return None
