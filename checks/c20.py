"""C20: generated fields are superpositions of the eddies they describe."""
import itertools
import math
import random

from mc.core import Group
from mc.world import gauss

BOUNDS = ("grids of 4x3, 5x5, 3x6 and 2x2 points: every initial position of 1 and 2 eddies (3 eddies: a lattice) x every first random position "
          "tried afterwards x 3 modes x margins 0, 1 and 4 x both signs x eddies longer along x or y; too crowded grids; 3 steps; every direction of the random walk; "
          "every centre of a 7x7 kernel x 4 widths")
ASSUMPTIONS = ["random numbers come from the random module; they are scripted: the script is followed by a fair enumeration of all positions",
               "the distance between eddies that don't interact is that of the coordinates of the generated field"]


def groups(ctx):
    import numpy as np
    from trackeddy.generator.field_generator import Generate_field
    from trackeddy.generator.gaussian_field_functions import makeGaussian, moveGaussian

    class Script:
        """Replaces the functions of the random module."""

        def __init__(self, ints, reals=0.5, sign=1):
            self.ints, self.n, self.extra, self.reals, self.sign = list(ints), 0, 0, reals, sign
            self.other = 0

        def randint(self, lo, hi):
            self.n += 1
            if self.n <= len(self.ints):
                return min(hi, max(lo, self.ints[self.n - 1]))
            # all pairs of values, in turn
            self.extra += 1
            k = self.extra - 1
            w = hi - lo + 1
            if k % 2 == 0:
                self.first = w
                return lo + (k // 2) % w
            return lo + ((k // 2) // self.first + k // 2 * 7) % w

        def uniform(self, lo, hi):
            self.other += 1
            f = (self.reals + 0.37 * self.other) % 1.0
            return lo + f * (hi - lo)

        def randrange(self, start, stop=None, step=1):
            lo, hi = (0, start) if stop is None else (start, stop)
            return lo + step * ((self.randint(lo, hi - 1) - lo) // step)

        def choice(self, seq):
            return seq[-1] if self.sign > 0 else seq[0]

        def random(self):
            return self.uniform(0, 1)

        def __enter__(self):
            self.saved = {k: getattr(random, k) for k in ("randint", "randrange", "uniform", "choice", "random")}
            for k in self.saved:
                setattr(random, k, getattr(self, k))
            return self

        def __exit__(self, *a):
            for k, v in self.saved.items():
                setattr(random, k, v)

    def surface(item, X, Y, i, j):
        sx, sy = item["radius"]
        return gauss(X, Y, X[0, i], Y[j, 0], sx, sy, -item["angle"], item["amp"])

    def explain(field, items, tables):
        """Positions of the eddies whose sum is the field (None if there are none)."""
        todo = [(field, ())]
        for k, table in enumerate(tables):
            new = []
            for rest, pos in todo:
                for p, s in table.items():
                    r = rest - s
                    new.append((r, pos + (p,)))
            todo = new
        best = [pos for r, pos in todo if np.abs(r).max() < 1e-9]
        return best

    def decide(case, t):
        (nx, ny), n, opt, margin, ints, sign, steps = case[:7]
        a, b = case[7] if len(case) > 7 else (0.7, 0.5)
        x, y = np.linspace(1, 1 + 2.5 * (nx - 1), nx), np.linspace(-4, -4 + 2.5 * (ny - 1), ny)
        x0, y0 = x.copy(), y.copy()
        with Script(ints, sign=sign) as s:
            g = Generate_field(a, b, n, x, y, opt)
            used = s.n
            first = {k: [list(p) for p in v["loc"]] for k, v in g.eddies.items()}
            data = g.assemble_field(steps, margin)
        t.op(1 + steps)
        if not used:
            return t.trivial()       # other random numbers
        t.check((x == x0).all() and (y == y0).all(), "the coordinates given were modified")
        items = list(g.eddies.values())
        t.check(len(items) == n, "%d eddies instead of %d", len(items), n)
        t.check(data.shape == (steps, ny + 2 * margin, nx + 2 * margin), "%r: shape %r", case, data.shape)
        X, Y = np.meshgrid(np.linspace(x.min(), x.max(), nx + 2 * margin), np.linspace(y.min(), y.max(), ny + 2 * margin))
        for it in items:
            r = it["radius"]
            t.check(0.9 * a - 1e-9 <= r[0] <= 1.1 * a + 1e-9 and 0.9 * b - 1e-9 <= r[1] <= 1.1 * b + 1e-9, "%r: radius %r", case, r)
            t.check(0.7 <= abs(it["amp"]) <= 1.3 and it["amp"] * sign > 0, "%r: amplitude %r", case, it["amp"])
        tables = [{(i, j): surface(it, X, Y, i, j) for i in range(margin, margin + nx) for j in range(margin, margin + ny)} for it in items]
        dx, dy = X[0, 1] - X[0, 0], Y[1, 0] - Y[0, 0]
        for k in range(steps):
            found = explain(data[k], items, tables)
            t.check(found, "%r: step %d is not the sum of %d of the described eddies at points of the grid", case, k, n)
            t.state(nx, ny, n, opt, margin, found[0])
            if opt == "":
                pos = tuple((p[0][0] + margin, p[0][1] + margin) for p in first.values())
                t.check(pos in found, "%r: step %d has eddies at %r instead of %r", case, k, found[0], pos)
            if opt in ("no_interaction", "Nint") and n > 1:
                away = 5 * max(items[0]["radius"])
                dist = [min(math.hypot((p[0] - q[0]) * dx, (p[1] - q[1]) * dy) for p, q in itertools.combinations(pos, 2)) for pos in found]
                if room(nx, ny, dx, dy, n, away):
                    t.check(max(dist) >= away - 1e-9, "%r: step %d has eddies %r apart, less than %r", case, k, max(dist), away)

    def room(nx, ny, dx, dy, n, away):
        """Whether n eddies fit wherever the first ones are."""
        pts = [(i, j) for i in range(nx) for j in range(ny)]

        def fits(sel):
            free = [p for p in pts if all(math.hypot((p[0] - q[0]) * dx, (p[1] - q[1]) * dy) >= away for q in sel)]
            if not free:
                return False
            return len(sel) + 1 == n or all(fits(sel + [p]) for p in free)
        return all(fits([p]) for p in pts)

    cases = []
    for shape in ((4, 3), (3, 6), (5, 5)):
        nx, ny = shape
        pts = list(itertools.product(range(nx), range(ny)))
        lattice = pts[::2] if ctx.thorough else pts[::3]
        for opt in ("", "no_interaction", "Nint", "interaction", "int"):
            for margin in (0, 1, 4):
                for sign in (1, -1):
                    cases += [(shape, 1, opt, margin, p, sign, 2) for p in (pts if opt in ("", "Nint") else lattice)]
                if opt in ("Nint", "int") and not ctx.thorough:
                    continue
                pairs = list(itertools.product(pts, repeat=2)) if ctx.thorough else list(itertools.product(lattice, repeat=2)) + [(p, p) for p in pts]
                cases += [(shape, 2, opt, margin, p + q, 1, 2) for p, q in pairs]
        # the positions tried afterwards: 4 draws of step 1, then the trials
        for p in lattice:
            for q in pts:
                cases.append((shape, 2, "no_interaction", 0, (0, 0, nx - 1, ny - 1) + p + q + p + q, -1, 2))
                cases.append((shape, 2, "no_interaction", 0, p + q + (0, 0) * 2 + q + q + p, -1, 3))
    # longer along y
    for c in [c for c in cases if c[1] == 2 and c[2] in ("no_interaction", "Nint")][::ctx.pick(2, 1)]:
        cases.append(c + ((0.45, 0.75),))
    cases += [((5, 5), 3, "no_interaction", 0, p + q, 1, 1) for p in ((0, 0), (2, 2), (4, 1)) for q in ((0, 0), (4, 4), (3, 0))]
    yield Group("superposition", cases, decide)

    def crowded_case(case, t):
        shape, n, margin = case
        x, y = np.linspace(0, 1, shape[0]), np.linspace(0, 1, shape[1])
        with Script((), sign=1):
            g = Generate_field(1, 1, n, x, y, "no_interaction")
            data = g.assemble_field(1, margin)
        t.op(1)
        t.check(np.isfinite(data).all() and data.shape == (1, shape[1] + 2 * margin, shape[0] + 2 * margin), "%r", case)
        t.state(case)

    # a field that can't hold the eddies is still generated, in bounded time
    yield Group("crowded", [((2, 2), 2, 0), ((3, 2), 3, 1), ((4, 4), 2, 50), ((2, 5), 4, 0)], crowded_case, limit=60)

    def rebuilt(case, t):
        (nx, ny), n, ints, before = case
        x, y = np.linspace(0, 9, nx), np.linspace(5, 11, ny)
        with Script(ints, reals=0.2):
            g = Generate_field(0.8, 0.6, n, x, y)
            if before is not None:
                g.assemble_field(1, before)
            f = g.reconstruct_field()
        t.op(1)
        X, Y = np.meshgrid(np.linspace(0, 9, nx), np.linspace(5, 11, ny))
        want = sum(surface(it, X, Y, it["loc"][0][0], it["loc"][0][1]) for it in g.eddies.values())
        t.check(f.shape == want.shape and np.allclose(f, want, atol=1e-9), "%r: the reconstructed field is not that of the eddies", case)
        t.state(np.round(f, 6))

    yield Group("reconstruction", [(s, n, ints, b) for s in ((4, 3), (3, 6), (5, 5)) for n in (1, 2, 3)
                                   for ints in itertools.product(range(3), repeat=4) for b in (None, 0, 2)], rebuilt)

    def seeded(case, t):
        seed, opt = case
        out = []
        for _ in range(2):
            random.seed(seed)
            out.append(Generate_field(1, 1, 3, np.linspace(0, 30, 31), np.linspace(0, 30, 21), opt).assemble_field(2, 5))
        t.op(2)
        t.check(np.array_equal(*out), "two fields generated from the same seed differ")
        t.state(np.round(out[0], 6))

    yield Group("seeds", [(s, o) for s in (0, 1, ctx.seed + 2) for o in ("", "no_interaction", "interaction")], seeded)

    def walk(case, t):
        d, step, pos = case
        with Script([d, d]):
            g = Generate_field(1, 1, 1, np.arange(4.0), np.arange(4.0))
            with Script([d] * len(pos)) as s:
                new = g.make_random_walk(pos, step)
                if not s.n:
                    return t.trivial()
        t.op()
        move = (new[0] - pos[0], new[1] - pos[1])
        t.state(d, step, move)
        want = {1: (1, 0), 2: (0, 1), 3: (0, -1), 4: (-1, 0), 5: (-1, -1), 6: (-1, 1), 7: (1, -1), 8: (1, 1)}[d]
        t.check(move == (want[0] * step, want[1] * step), "%r: moved %r", case, move)

    yield Group("walk", [(d, s, p) for d in range(1, 9) for s in (1, 3) for p in ((0, 0), (5, 2))], walk)

    def kernel(case, t):
        size, fwhm, center = case
        k = makeGaussian(size, fwhm, center)
        t.op()
        c = center or (size // 2, size // 2)
        i, j = np.meshgrid(np.arange(size), np.arange(size))
        want = 0.5 ** (((i - c[0]) ** 2 + (j - c[1]) ** 2) / (fwhm / 2.0) ** 2)
        t.check(k.shape == want.shape and np.allclose(k, want, atol=1e-12), "%r", case)
        m = moveGaussian(size, fwhm, np.array([c, (c[0] + 1, c[1]), (0.5, c[1])]), 3)
        t.op()
        t.check(m.shape == (3, size, size) and np.allclose(m[0], want, atol=1e-12), "%r: the first step of a moving kernel", case)
        t.check(np.allclose(m[1], makeGaussian(size, fwhm, (c[0] + 1, c[1])), atol=1e-12)
                and np.allclose(m[2], makeGaussian(size, fwhm, (0.5, c[1])), atol=1e-12), "%r: a moving kernel", case)
        t.state(np.round(k, 9))

    yield Group("kernels", [(s, w, c) for s in (1, 6, 7) for w in (1, 2.5, 3, 8) for c in [None] + list(itertools.product(range(s), repeat=2))], kernel)
