"""Reference for filled regions: the directed boundary of {lo < z <= hi}.

Every cell is decided on its own: its part of the region is bounded by pieces of
its edges and by the straight cuts between the points where a level crosses them.
Pieces shared by two cells cancel out, the rest is the boundary of the region.
"""


def _key(p):
    return (round(p[0], 7) + 0.0, round(p[1], 7) + 0.0)


class Chain(dict):
    """Directed segments with their multiplicity; opposite ones cancel out."""

    def segment(self, p, q, n=1):
        p, q = _key(p), _key(q)
        if p == q:
            return
        if q < p:
            p, q, n = q, p, -n
        v = self.get((p, q), 0) + n
        if v:
            self[p, q] = v
        else:
            self.pop((p, q), None)


def region(X, Y, Z, lo, hi, masked=()):
    """The boundary, with the region on its left in the order of the mesh."""
    ny, nx = len(Z), len(Z[0])
    out = Chain()
    invalid = {(j - dj, i - di) for j, i in masked for dj in (0, 1) for di in (0, 1)}

    def cross(a, b, l):
        # from the same end whatever the direction
        if b < a:
            a, b = b, a
        w = (l - Z[a[0]][a[1]]) / (Z[b[0]][b[1]] - Z[a[0]][a[1]])
        return (X[a[0]][a[1]] + w * (X[b[0]][b[1]] - X[a[0]][a[1]]),
                Y[a[0]][a[1]] + w * (Y[b[0]][b[1]] - Y[a[0]][a[1]]))

    def cls(n):
        z = Z[n[0]][n[1]]
        return (z > lo) + (z > hi)

    for j in range(ny - 1):
        for i in range(nx - 1):
            if (j, i) in invalid:
                continue
            corners = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
            mean = 0.25 * sum(Z[a][b] for a, b in corners)
            crossings = {0: [], 1: []}
            for k in range(4):
                a, b = corners[k], corners[(k + 1) % 4]
                ca, cb = cls(a), cls(b)
                stops = [(X[a[0]][a[1]], Y[a[0]][a[1]])]
                between = [ca]
                step = 1 if cb > ca else -1
                for c in range(ca, cb, step):
                    level = min(c, c + step)
                    p = cross(a, b, (lo, hi)[level])
                    crossings[level].append((step, p))
                    stops.append(p)
                    between.append(c + step)
                stops.append((X[b[0]][b[1]], Y[b[0]][b[1]]))
                for n, c in enumerate(between):
                    if c == 1:
                        out.segment(stops[n], stops[n + 1])
            for level, l in ((0, lo), (1, hi)):
                cs = crossings[level]
                if not cs:
                    continue
                if cs[0][0] < 0:
                    cs = cs[1:] + cs[:1]
                # now: into the higher part, out of it, ...
                n = len(cs) // 2
                for m in range(n):
                    down = cs[2 * m + 1][1]
                    up = cs[(2 * m + 2) % len(cs)][1] if n == 2 and mean > l else cs[2 * m][1]
                    if level == 0:
                        out.segment(down, up)
                    else:
                        out.segment(up, down)
    return out


def subpaths(verts, codes):
    """The closed subpaths of one polygon, or None if the codes make no sense."""
    out = []
    for p, c in zip(verts, codes):
        if c == 1:
            out.append([])
        elif c != 2 or not out:
            return None
        out[-1].append((float(p[0]), float(p[1])))
    return out


def area(path):
    return 0.5 * sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(path, path[1:] + path[:1]))


def inside(p, path):
    odd = False
    for (x0, y0), (x1, y1) in zip(path, path[1:] + path[:1]):
        if (y0 > p[1]) != (y1 > p[1]) and p[0] < x0 + (p[1] - y0) / (y1 - y0) * (x1 - x0):
            odd = not odd
    return odd
