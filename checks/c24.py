"""C24: the plots show the identified eddies and the discarded contours, as labelled."""
import itertools

from mc.core import Group
from mc.track_ref import scripted, table
from mc.world import dataset, discarded, eddies, gauss, load, tracker

BOUNDS = ("every set of up to 3 of the 8 reasons for discarding x 0..3 eddies, with and without plot arguments; every snapshot of up to 4 (thorough: 5) eddies over "
          "0..6 levels; every selection of up to 3 (5) eddies from a table; real fields at several levels; 1D and 2D coordinates, no eddies and nothing discarded")
ASSUMPTIONS = ["the artists of the figure are inspected, not its pixels"]

REASONS = {"eccentricity": "Fail eccentricity", "area": "Area fail", "open_contour": "Open contour", "similarity": "Contour != ellipse",
           "ellipse_area": "Ellipse area fail", "eddy_is_island": "Eddy is island", "gaussian_fit_failed": "Gaussian fit failed",
           "gaussian_check": "Contour != Gaussian"}


def groups(ctx):
    import numpy as np
    import pandas as pd
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    import cmocean  # noqa

    x, y = np.linspace(10, 13, 16), np.linspace(30, 32.6, 14)
    X, Y = np.meshgrid(x, y)
    f0 = gauss(X, Y, 11.03, 31.2, 0.4) - gauss(X, Y, 12.4, 31.6, 0.3)

    def field_of(ax, f, X, Y):
        for c in ax.collections:
            if c.get_array() is not None and c.get_array().size == f.size:
                return np.array_equal(np.asarray(c.get_array()).reshape(f.shape), f)
        return False

    def lines(ax):
        return [(np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel(), to_rgba(l.get_color())[:3], l.get_label())
                for l in ax.lines]

    def has_curve(ls, p):
        return [l for l in ls if len(l[0]) == len(p) and np.allclose(l[0], p[:, 0]) and np.allclose(l[1], p[:, 1])]

    def level_plot(tr, es, lost, f, X, Y, t, case, args):
        want = eddies(es)
        lost_records = discarded(lost)
        data = np.asarray(tr.data2track.values).copy()
        try:
            tr.plot_eddy_detection_in_level(es, lost, **args)
            t.op()
            axes = plt.gcf().axes
            t.check(len(axes) >= 2, "%r: %d panels", case, len(axes))
            a, b = axes[:2]
            t.check(field_of(a, f, X, Y) and field_of(b, f, X, Y), "%r: the panels don't show the field", case)
            la, lb = lines(a), lines(b)
            for e in want:
                t.check(has_curve(la, e["path"]), "%r: the contour of eddy %r is not plotted", case, e["id"])
            curves = [l for l in la if len(l[0]) > 1 and np.ptp(l[0]) > 0]
            t.check(len(curves) == len(want), "%r: %d contours plotted for %d eddies", case, len(curves), len(want))
            legend = b.get_legend()
            t.check(legend is not None, "%r: no legend", case)
            colors = {}
            for l in lb:
                if not l[3].startswith("_"):
                    colors.setdefault(l[3], l[2])
            texts = [s.get_text() for s in legend.get_texts()]
            t.check(len(set(texts)) == len(texts) and len(set(colors.values())) == len(colors), "%r: legend %r", case, texts)
            rest = [l for l in lb if l[3].startswith("_")]
            t.check(len(rest) == len(lost_records), "%r: %d marks for %d discarded contours", case, len(rest), len(lost_records))
            for d in lost_records:
                label = REASONS[str(d["reason"])]
                t.check(label in texts and label in colors, "%r: %r is not in the legend %r", case, label, texts)
                mine = [l for l in rest if len(l[0]) == 1 and abs(l[0][0] - float(d["contour_x"])) < 1e-9 and abs(l[1][0] - float(d["contour_y"])) < 1e-9
                        and np.allclose(l[2], colors[label])]
                t.check(mine, "%r: no mark at (%r, %r) with the colour of %r", case, d["contour_x"], d["contour_y"], label)
            t.check(np.array_equal(np.asarray(tr.data2track.values), data), "%r: the field was modified", case)
            t.state(case, len(la), len(lb))
        finally:
            plt.close("all")

    def table_lost(reasons):
        if not reasons:
            return []
        return pd.concat([pd.DataFrame({"reason": np.array(r), "level": 0.5, "area_eddy": 10.0 + k, "radius_eddy": 2.0, "contour_ellipse_error": 0,
                                        "contour_x": 10.5 + 0.4 * k, "contour_y": 30.6 + 0.3 * k, "ellipse_eccen": 0, "eddy_sign": 0,
                                        "eddy_maxima": 0, "contour_gaussian_error": 0}, index=[k]) for k, r in enumerate(reasons)])

    def make_eddies(n):
        return table([scripted(10.7 + 0.5 * k, 31 + 0.2 * k, tag=k + 1, n=4 + k) for k in range(n)])

    def reasons(case, t):
        rs, n, kind, args = case
        ds = dataset(f0, X, Y) if kind == "2D" else dataset(f0, x, y)
        tr = load(tracker(ds, skip=True))
        level_plot(tr, make_eddies(n), table_lost(rs), f0, X, Y, t, case, dict(args))

    names = list(REASONS)
    sets = [s for r in range(3) for s in itertools.combinations(names, r)]
    if ctx.thorough:
        sets += list(itertools.combinations(names, 3)) + [(a, a) for a in names]
    cases = [(s, 1, "1D", ()) for s in sets] + [((r,), n, k, a) for r in names for n in (0, 2, 3) for k in ("1D", "2D")
                                                  for a in ((), (("markersize", 4), ("alpha", 0.7)))]
    cases += [(tuple(names), n, "1D", ()) for n in range(4)] + [((), n, k, ()) for n in range(4) for k in ("1D", "2D")]
    yield Group("levels", cases, reasons)

    def real(case, t):
        level, wide = case
        f = f0 + gauss(X, Y, 12.2, 30.6, 0.6, 0.11) + gauss(X, Y, 10.0, 32.3, 0.3)
        crit = {"ellipse_fit": 1.0} if wide else None
        tr = load(tracker(dataset(f, x, y), skip=True, criteria=crit))
        es, lost = tr._detect_one_level(level)
        level_plot(tr, es, lost, f, X, Y, t, case, {})

    yield Group("fields", [(l, w) for l in (-0.6, -0.3, 0.2, 0.35, 0.5, 0.7, 3.0) for w in (True, False)], real)

    def multi(case, t):
        levs, kind = case
        tr = load(tracker(dataset(f0, x, y), skip=True))
        recs = [scripted(10.6 + 0.3 * k, 30.7 + 0.25 * k, tag=k + 1, n=3 + k % 3, level=lev) for k, lev in enumerate(levs)]
        plot(tr, table(recs), f0, t, case)

    def plot(tr, tab, f, t, case):
        recs = eddies(tab)
        try:
            tr.plot_eddy_detection_multilevel(tab)
            t.op()
            ax = plt.gcf().axes[0]
            t.check(field_of(ax, f, X, Y), "%r: the plot doesn't show the field", case)
            ls = lines(ax)
            colors = {}
            for e in recs:
                mine = has_curve(ls, e["path"])
                t.check(mine, "%r: the contour of eddy %r is not plotted", case, e["id"])
                t.check(len({m[2] for m in mine}) == 1, "%r: eddy %r has several colours", case, e["id"])
                t.check(colors.setdefault(e["level"], mine[0][2]) == mine[0][2], "%r: eddies of level %r have different colours", case, e["level"])
            t.check(len(set(colors.values())) == len(colors), "%r: two levels share a colour", case)
            curves = [l for l in ls if len(l[0]) > 1 and np.ptp(l[0]) > 0]
            for l in curves:
                t.check(any(len(e["path"]) == len(l[0]) and np.allclose(e["path"][:, 0], l[0]) for e in recs), "%r: a curve that isn't an eddy", case)
            legend = ax.get_legend()
            if legend is not None and recs:
                got = {h.get_label(): to_rgba(h.get_color())[:3] for h in ax.lines if not h.get_label().startswith("_")}
                for text in legend.get_texts():
                    lev = float(text.get_text())
                    t.check(lev in colors and got[text.get_text()] == colors[lev], "%r: the legend gives level %r another colour", case, lev)
                t.check(len(legend.get_texts()) == len(colors), "%r: legend of %d levels", case, len(legend.get_texts()))
            t.state(case, sorted(colors))
        finally:
            plt.close("all")

    lv = (0.2, 0.4, -0.3)
    seqs = [s for n in range(0, ctx.pick(4, 5) + 1) for s in itertools.product(lv, repeat=n)]
    seqs += [tuple(0.1 * k + 0.1 for k in range(n)) for n in (4, 5, 6)]
    yield Group("multilevel", [(s, "scripted") for s in seqs], multi)

    def snapshot(case, t):
        tr = tracker(dataset(f0, x, y), skip=True)
        tab = tr._detect_snapshot(None, np.array(case))
        plot(tr, tab, f0, t, case)

    yield Group("snapshots", [s for n in (1, 2, 3, 4, 5) for s in itertools.combinations((-0.5, -0.25, 0.2, 0.35, 0.5, 0.7), n)] + [(9.0,)], snapshot)

    def part(case, t):
        # the eddies the user selects from a table are plotted, and no others
        n, keep, how = case
        tr = load(tracker(dataset(f0, x, y), skip=True))
        recs = [scripted(10.6 + 0.4 * k, 30.7 + 0.3 * k, tag=k + 1, n=3 + k % 3, level=0.2 if k % 2 else 0.4) for k in range(n)]
        tab = table(recs)
        ident = tab.index.get_level_values(0)
        kept = [i for i in range(n) if keep >> i & 1]
        if how == "mask":
            sel = tab[ident.isin(kept)]
        elif how == "drop":
            sel = tab.drop([i for i in range(n) if i not in kept], level=0)
        else:
            sel = tab.loc[kept]
        level_plot(tr, sel, table_lost(("area",)), f0, X, Y, t, case, {})
        plot(tr, sel, f0, t, case)

    yield Group("selections", [(n, k, h) for n in (1, 2, 3, ctx.pick(3, 5)) for k in range(1, 2 ** n) for h in ("mask", "drop", "loc")], part)
