"""C18: tracking offline stores each snapshot in its file, whatever happens to the others."""
import itertools
import json
import os
import shutil

from mc.core import Group
from mc.track_ref import brief, pair_up, scripted, table
from mc.track_run import scripted_class
from mc.world import dataset, eddies, gauss, is_empty, track, tracker

BOUNDS = ("every sequence of 4 (thorough: 6) snapshots with 0, 1 or 2 eddies x both formats; every window t0 < tf; a failure at "
          "every snapshot, in its detection or in the writing of its file, followed by a restart from every snapshot up to the failed one; "
          "two runs over the same directory; real fields with and without the Gaussian fit; snapshot numbers up to 6 digits")
ASSUMPTIONS = ["formats csv and json (hd5 needs a library that is not installed)",
               "a failed write is one where the file can't be opened; torn files are not considered"]

KM = 1 / 111.19


class Crash(Exception):
    pass


def groups(ctx):
    import numpy as np
    import pandas as pd
    from mc.build import scratch_dir
    from trackeddy.utils import store_snapshot

    root = scratch_dir()
    Base = scripted_class()

    class Failing(Base):
        fail_at = None

        def _detect_snapshot(self, time, levels):
            if time == self.fail_at:
                self.calls += 1
                raise Crash()
            return super()._detect_snapshot(time, levels)

    def eddy(k, i):
        tag = 10 * k + i + 1
        return scripted(100 + 300 * i * KM + 3 * k * KM, -7 + 0.2 * k, 60, tag=tag, n=3 + tag % 3, sign=(-1.0) ** tag)

    def build(counts):
        return [[eddy(k, i) for i in range(n)] for k, n in enumerate(counts)]

    class Dir:
        def __init__(self):
            self.path = os.path.join(root, "d%d_%d" % (os.getpid(), Dir.n))
            Dir.n += 1

        def __enter__(self):
            os.makedirs(self.path)
            return self.path

        def __exit__(self, *a):
            shutil.rmtree(self.path, ignore_errors=True)
    Dir.n = 0

    def read(path, fmt, t):
        """Eddies in a file."""
        if fmt == "csv":
            df = pd.read_csv(path)
        else:
            raw = json.load(open(path))
            cols = list(raw)
            t.check(cols, "%s: empty json", path)
            keys = list(raw[cols[0]])
            rows = {c: [raw[c][k] for k in keys] for c in cols}
            idx = [tuple(int(float(v)) for v in k.strip("()[]").split(",")) for k in keys]
            df = pd.DataFrame(rows)
            for n, name in enumerate(("identifier", "time", "index")):
                if name not in df:
                    df[name] = [i[n] for i in idx]
        for c in ("identifier", "time", "index"):
            t.check(c in df, "%s: no column %r", path, c)
        return eddies(df.set_index(["identifier", "time", "index"]).sort_index())

    def name(k, fmt):
        return "identified_eddies_%05d.%s" % (k, fmt)

    def verify(path, script, times, fmt, t, what, extra=()):
        want = {name(k, fmt): k for k in times if script[k]}
        have = set(os.listdir(path)) - set(extra)
        t.check(have == set(want), "%r: files %r instead of %r", what, sorted(have), sorted(want))
        for f, k in want.items():
            got = read(os.path.join(path, f), fmt, t)
            t.check(all(e["time"] == k for e in got), "%r: %s holds times %r", what, f, sorted({e["time"] for e in got}))
            # json keeps 10 decimals
            pairs = close_pairs(script[k], got) if fmt == "json" else pair_up(script[k], got)
            t.check(not isinstance(pairs, str), "%r: %s: %s", what, f, pairs)
            ids = [e["id"] for e in got]
            t.check(len(set(ids)) == len(ids), "%r: %s: repeated identifiers %r", what, f, ids)
        t.state(what, sorted(have))

    def close_pairs(want, got):
        def rounded(e):
            e = {k: (round(v, 7) if isinstance(v, float) else v) for k, v in e.items()}
            e["path"] = np.round(e["path"], 7)
            return e
        return pair_up([rounded(e) for e in want], [rounded(e) for e in got])

    def make(script, path, fmt, cls=Base):
        ds = dataset(np.zeros((len(script), 4, 5)), np.arange(5.0), np.arange(4.0))
        tr = tracker(ds, cls=cls)
        tr.script, tr.out_path, tr.out_format = script, path, fmt
        return tr

    def run(tr, **kw):
        return track(tr, np.array([0.5]), online_track=False, **kw)

    def sequence(case, t):
        counts, fmt, window = case
        script = build(counts)
        t0, tf = window or (0, len(script))
        with Dir() as d:
            open(os.path.join(d, "notes.txt"), "w").write("keep")
            here = os.getcwd()
            before = sorted(os.listdir(here))
            tr = make(script, d, fmt)
            run(tr, **({} if window is None else {"t0": t0, "tf": tf}))
            t.op(tf - t0)
            if not tr.calls:
                return t.trivial()
            verify(d, script, range(t0, tf), fmt, t, case, extra=["notes.txt"])
            t.check(open(os.path.join(d, "notes.txt")).read() == "keep", "another file was overwritten")
            t.check(sorted(os.listdir(here)) == before, "files appeared in the current directory")

    n = ctx.pick(4, 6)
    seqs = list(itertools.product((0, 1, 2), repeat=n))
    yield Group("sequences", [(s, f, None) for s in seqs for f in ("csv", "json")], sequence)
    wins = [(a, b) for a in range(4) for b in range(1, 5) if a < b]
    yield Group("windows", [(s, f, w) for s in ((1, 2, 0, 1), (0, 0, 1, 2), (2, 1, 1, 0)) for f in ("csv", "json") for w in wins], sequence)

    def crash(case, t):
        counts, fmt, kind, k, restart = case
        script = build(counts)
        with Dir() as d:
            tr = make(script, d, fmt, Failing)
            extra = []
            if kind == "detection":
                tr.fail_at = k
            else:
                os.makedirs(os.path.join(d, name(k, fmt)))     # can't be opened
                extra = [name(k, fmt)]
            try:
                run(tr)
                failed = False
            except (Crash, OSError):
                failed = True
            t.op(k + 1)
            if not tr.calls:
                return t.trivial()
            t.check(failed or (kind == "write" and not script[k]), "%r: the failure was not reported", case)
            upto = k if failed else len(script)
            verify(d, script, range(upto), fmt, t, (case, "after the failure"), extra=extra)
            if extra:
                os.rmdir(os.path.join(d, extra[0]))
            keep = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
            tr = make(script, d, fmt)
            run(tr, t0=restart)
            t.op(len(script) - restart)
            verify(d, script, range(len(script)), fmt, t, (case, "after the restart"))
            for f, text in keep.items():
                t.check(open(os.path.join(d, f)).read() == text or int(f[18:23]) >= restart, "%r: %s changed", case, f)

    hist = ctx.pick([(1, 2, 0, 1), (0, 1, 1, 2)], list(itertools.product((0, 1, 2), repeat=4)))
    yield Group("crashes", [(h, f, kind, k, r) for h in hist for f in ("csv", "json") for kind in ("detection", "write")
                            for k in range(4) for r in range(k + 1)], crash)

    def direct(case, t):
        k, fmt, count = case
        script = {k: [eddy(3, i) for i in range(count)]}
        df = table(script[k]).reset_index()
        df["time"] = k
        df = df.set_index(["identifier", "time", "index"])
        with Dir() as d:
            store_snapshot(df, d, k, format=fmt)
            t.op()
            verify(d, script, [k], fmt, t, case)
            if fmt == "csv":
                store_snapshot(df, d, k)
                verify(d, script, [k], fmt, t, case)

    yield Group("names", [(k, f, c) for k in (0, 1, 9, 10, 99, 100, 9999, 10000, 99999, 100000, 123456) for f in ("csv", "json")
                          for c in (1, 3, 12)], direct)

    x, y = np.linspace(100, 104, 21), np.linspace(-3, 0, 16)
    X, Y = np.meshgrid(x, y)
    levels = np.array([-0.4, 0.0, 0.35, 0.5])

    def real(case, t):
        masks, skip, fmt, runs = case
        data = np.array([(m & 1) * gauss(X, Y, 101.03 + 0.11 * k, -1.6, 0.4, 0.37) - (m >> 1) * gauss(X, Y, 103.1, -1.3 - 0.1 * k, 0.33, 0.3)
                         for k, m in enumerate(masks)])
        script = []
        for k in range(len(masks)):
            script.append(eddies(tracker(dataset(data[k], x, y), skip=skip)._detect_snapshot(None, levels)))
        with Dir() as d:
            for _ in range(runs):
                tr = tracker(dataset(data, x, y), skip=skip)
                tr.out_path, tr.out_format = d, fmt
                run_ = track(tr, levels, online_track=False)
                t.op(len(masks))
                verify(d, script, range(len(masks)), fmt, t, case)
            if not any(masks):
                t.trivial()
            # tracking online stores nothing
            with Dir() as d2:
                tr = tracker(dataset(data, x, y), skip=True)
                tr.out_path = d2
                track(tr, levels)
                t.check(not os.listdir(d2), "%r: tracking online stored %r", case, os.listdir(d2))

    yield Group("fields", [(m, True, f, r) for m in itertools.product((0, 1, 3), repeat=ctx.pick(2, 3)) for f in ("csv", "json") for r in (1, 2)]
                + [((3, 0, 1), False, f, 1) for f in ("csv", "json")], real)
