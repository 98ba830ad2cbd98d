"""C23: eddies are exported and collected as they are."""
import itertools

from mc.core import Group

BOUNDS = ("every selection of the 13 properties of an eddy (2^13), every order of 3 of them, for fitted and not fitted eddies, contours of 3 to 40 "
          "vertices; unknown properties; every sequence of 5 (thorough: 7) operations of storing two eddies, discarding two and resetting")
ASSUMPTIONS = ["contours of at least 3 vertices"]

NAMES = {"identifier": ["identifier"], "contour": ["contour_path_x", "contour_path_y"], "level": ["level"], "area_eddy": ["area_eddy"],
         "radius_eddy": ["radius_eddy"], "ellipse_params": ["ellipse_params_a", "ellipse_params_b", "ellipse_params_theta"],
         "contour_ellipse_error": ["contour_ellipse_error"], "ellipse_eccen": ["ellipse_eccen"], "contour_center": ["contour_x", "contour_y"],
         "eddy_sign": ["eddy_sign"], "eddy_maxima": ["maxima", "maxima_y", "maxima_x"],
         "gaussian_params": ["gaussian_params_x", "gaussian_params_y", "gaussian_params_sigma_x", "gaussian_params_sigma_y", "gaussian_params_theta"],
         "contour_gaussian_error": ["contour_gaussian_error"]}


def groups(ctx):
    import numpy as np
    import pandas as pd
    from trackeddy.eddy import Eddy

    def make(n=5, fitted=True, seed=0, ident=4):
        k = np.arange(n)
        c = np.c_[10 + np.cos(k * 2 * np.pi / (n - 1)) + seed, -5 + 0.5 * np.sin(k * 2 * np.pi / (n - 1))]
        c[-1] = c[0]
        e = Eddy(c, 0.35 + seed)
        e.identifier = ident
        e.area_eddy = 123.25 + seed
        e.radius_eddy = np.array(6.25 + seed)
        e.ellipse_params = np.array([2.5, 1.25, 0.3 + seed])
        e.contour_ellipse_error = np.array(0.625)
        e.ellipse_eccen = np.float64(0.75)
        e.contour_center = np.array([10.5 + seed, -4.5])
        e.eddy_sign = np.array(-1.0)
        e.eddy_maxima = np.array([[-1.5 - seed], [-4.75], [10.25]])
        e.gaussian_params = np.array([10.125, -4.875, 1.5, 0.75, 0.1]) if fitted else None
        e.contour_gaussian_error = np.array(0.9375) if fitted else 0
        return e

    def expected(e):
        out = {"identifier": e.identifier, "contour_path_x": e.contour[:, 0], "contour_path_y": e.contour[:, 1]}
        for p in ("level", "area_eddy", "radius_eddy", "contour_ellipse_error", "ellipse_eccen", "eddy_sign", "contour_gaussian_error"):
            out[p] = getattr(e, p)
        for p in ("ellipse_params", "contour_center", "eddy_maxima", "gaussian_params"):
            v = getattr(e, p)
            if v is None:
                out[p] = None
            else:
                out.update(zip(NAMES[p], np.ravel(v)))
        return out

    def names(e, props):
        out = []
        for p in props:
            out += [p] if p == "gaussian_params" and e.gaussian_params is None else NAMES[p]
        return out

    def equal(a, b):
        if b is None:
            return a is None or (np.ndim(a) == 0 and np.asarray(a).item() is None)
        return np.array_equal(np.asarray(a, float), np.asarray(b, float))

    def decide(case, t):
        props, fitted, n = case
        e = make(n, fitted)
        copy = e.contour.copy()
        want = expected(e)
        given = None if props is None else list(props)
        d = e.to_dict(given)
        t.op()
        cols = names(e, props or NAMES)
        t.check(list(d) == cols or sorted(d) == sorted(cols), "%r: exported %r instead of %r", case, list(d), cols)
        for c in cols:
            t.check(equal(d[c], want[c]), "%r: %s is %r instead of %r", case, c, d[c], want[c])
        table = e.to_table(given)
        t.op()
        rows = n if "contour_path_x" in cols else 1
        t.check(len(table) == rows, "%r: %d rows instead of %d", case, len(table), rows)
        t.check(sorted(table.columns) == sorted(cols + ["index"]), "%r: columns %r", case, list(table.columns))
        t.check(table["index"].tolist() == list(range(rows)), "%r: index %r", case, table["index"].tolist())
        for c in cols:
            v = table[c].to_numpy()
            w = want[c]
            ok = all(x is None for x in v) if w is None else np.array_equal(v.astype(float), np.broadcast_to(np.asarray(w, float), rows))
            t.check(ok, "%r: column %s is %r instead of %r", case, c, v.tolist(), w)
        t.check(np.array_equal(e.contour, copy) and (given is None or given == list(props)), "%r: the eddy was modified", case)
        t.state(case, sorted(d))

    every = list(NAMES)
    subsets = [s for r in range(1, len(every) + 1) for s in itertools.combinations(every, r)]
    cases = [(s, True, 5) for s in subsets] + [(s, False, 4) for s in subsets if ctx.thorough or len(s) < 4]
    cases += [(s, f, 6) for s in itertools.permutations(every, 3) for f in ((True, False) if ctx.thorough else (True,))]
    cases += [(None, f, n) for f in (True, False) for n in range(3, 41)] + [((), True, 7)]
    cases += [((p,), f, n) for p in every for f in (True, False) for n in (3, 4, 5, 6, 13, 40)]
    yield Group("exports", cases, decide)

    def unknown(case, t):
        props, fitted = case
        e = make(5, fitted)
        for f in (e.to_dict, e.to_table):
            try:
                r = f(list(props))
            except ValueError:
                t.op()
                t.state(props)
                t.check(True, "")
                continue
            t.check(False, "%r: an unknown property was exported: %r", case, r)

    bad = ("contur", "gaussian_parameters", "maxima_x")
    yield Group("unknown", [(s[:k] + (b,) + s[k:], f) for b in bad for s in [()] + list(itertools.permutations(every[:5], 2))
                            for k in range(len(s) + 1) for f in (True, False)], unknown)

    def collect(ops, t):
        """Storing, discarding and resetting against two lists."""
        eddies = {"a": make(4, True, 0), "b": make(6, True, 1), "c": make(5, True, 2), "d": make(3, True, 3)}
        eddies["a"].exit()
        stored, lost = [], []
        for n, op in enumerate(ops):
            t.op()
            if op == "reset":
                eddies["a"].exit()
                stored, lost = [], []
                continue
            if op in "ab":
                table = eddies[op].store()
                stored.append(op)
                ids = table.identifier.to_numpy()
                want = np.concatenate([[k] * len(eddies[s].contour) for k, s in enumerate(stored)])
                t.check(np.array_equal(ids, want), "%r: identifiers %r instead of %r", ops[:n + 1], ids.tolist(), want.tolist())
                xs = np.concatenate([eddies[s].contour[:, 0] for s in stored])
                t.check(np.array_equal(table.contour_path_x.to_numpy(), xs), "%r: contours %r", ops[:n + 1], table.contour_path_x.tolist())
                lev = np.concatenate([[float(eddies[s].level)] * len(eddies[s].contour) for s in stored])
                t.check(np.array_equal(table.level.to_numpy(float), lev), "%r: levels", ops[:n + 1])
            else:
                why = {"c": "area", "d": "eccentricity"}[op]
                table = eddies[op].discarded(reason=why)
                lost.append(op)
                t.check([str(r) for r in table.reason] == [{"c": "area", "d": "eccentricity"}[s] for s in lost], "%r: reasons %r",
                        ops[:n + 1], table.reason.tolist())
                t.check(np.array_equal(table.contour_x.to_numpy(float), [eddies[s].contour_center[0] for s in lost]), "%r: centres", ops[:n + 1])
                t.check(list(table.index) == list(range(len(lost))), "%r: index %r", ops[:n + 1], list(table.index))
            t.state(stored, lost)
        eddies["a"].exit()

    n = ctx.pick(5, 7)
    yield Group("collections", [s for k in range(1, n + 1) for s in itertools.product(("a", "b", "c", "d", "reset"), repeat=k)
                                if k < 6 or s[0] != "reset"], collect)
