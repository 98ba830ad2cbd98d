"""C09: a detection depends on its field and settings, not on what ran before."""
import importlib
import itertools
import os
import pickle
import shutil
import subprocess
import sys

from mc.build import scratch_dir
from mc.core import Group, Violation, in_child
from mc.world import dataset, gauss, is_empty, load, quiet, tables_equal, tracker

BOUNDS = ("every sequence of up to 3 (thorough: 4) of 11 operations on three trackers (single level with eddies, with only "
          "discarded contours, with none; snapshot; tracking; a new tracker; changing and restoring settings; modifying a "
          "returned table; a detection that fails), each in a fresh process; an exception injected at every function call and "
          "return made by the package during a detection (quick: the first and last call of each call site), followed by detections of the same and of another tracker; "
          "2 (thorough: all) operations in processes of their own with 4 hash seeds, time zones and levels of optimisation")
ASSUMPTIONS = ["the reference of an operation is the same operation as the first one of a process"]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Injected(Exception):
    pass


def scenario(root):
    import numpy as np

    x, y = np.linspace(10, 15, 26), np.linspace(30, 34, 22)
    X, Y = np.meshgrid(x, y)
    f0 = gauss(X, Y, 12.03, 31.7, 0.5) + gauss(X, Y, 13.9, 33.1, 0.9, 0.16) - gauss(X, Y, 13.8, 31.1, 0.4)
    f1 = gauss(X, Y, 12.33, 31.8, 0.5) - gauss(X, Y, 13.7, 31.3, 0.4)
    g0 = gauss(X, Y, 11.5, 32.6, 0.45) + gauss(X, Y, 13.5, 31.5, 0.4, 0.55)
    only_bad = gauss(X, Y, 12.4, 32.1, 1.2, 0.15)
    levels = np.array([-0.4, 0.0, 0.3, 0.5])

    class Session:
        def __init__(self):
            self.ds = {"A": dataset(np.array([f0, f1]), x, y), "B": dataset(g0, x, y), "D": dataset(only_bad, x, y)}
            self.tr = {k: tracker(d, skip=(k != "B")) for k, d in self.ds.items()}
            self.copies = {k: d.copy(deep=True) for k, d in self.ds.items()}

        def level(self, k, lev):
            tr = self.tr[k]
            load(tr, 0 if k == "A" else None)
            return tr._detect_one_level(lev)

        def run(self, op):
            if op == "A.level":
                return self.level("A", 0.35)
            if op == "A.none":
                return self.level("A", 7.0)
            if op == "B.level":
                return self.level("B", 0.4)
            if op == "B.reused":      # again on the loaded field
                self.level("B", 0.4)
                return self.tr["B"]._detect_one_level(0.6)
            if op == "D.discards":
                return self.level("D", 0.3)
            if op == "A.snapshot":
                return self.tr["A"]._detect_snapshot(1, levels), None
            if op == "A.track":
                with quiet():
                    return self.tr["A"].time_tracking(t0=0, tf=2, lin_levels=levels), None
            if op == "new":
                tr = load(tracker(dataset(g0.copy(), x, y), skip=True))
                return tr._detect_one_level(0.4)
            if op == "settings":
                tr = self.tr["A"]
                old = dict(tr.identification_criteria)
                tr.identification_criteria.update(eccentricity=0.0, max_area=1e-6)
                self.level("A", 0.35)
                tr.identification_criteria = old
                return self.level("A", -0.35)
            if op == "scribble":
                e, d = self.level("B", 0.4)
                e.iloc[:, :] = 0
                if len(d):
                    d.iloc[:, :] = 0
                return self.level("D", 0.3)
            if op == "fail":
                try:
                    inject(lambda: self.level("A", 0.35), "call", 40)
                except Injected:
                    pass
                return self.level("A", 0.35)
            raise KeyError(op)

        def inputs_changed(self):
            for k, d in self.ds.items():
                if not d.identical(self.copies[k]):
                    return "the dataset of %s was modified" % k
                for v in d.variables:
                    if d[v].attrs != self.copies[k][v].attrs:
                        return "the attributes of %s were modified" % v
            return None

    def inject(fn, kind, n):
        """Raise Injected at the n-th function call (return) of the package."""
        count = [0]
        sites = inject.sites = []

        def site(frame):
            b = frame.f_back
            return (frame.f_code.co_filename, frame.f_code.co_firstlineno,
                    b and b.f_code.co_filename, b and b.f_lineno)

        def local(frame, event, arg):
            if event == "return" and kind == "return":
                count[0] += 1
                if n > 10 ** 8:
                    sites.append(site(frame))
                if count[0] == n:
                    raise Injected()
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(root):
                return None
            if event == "call" and kind == "call":
                count[0] += 1
                if n > 10 ** 8:
                    sites.append(site(frame))
                if count[0] == n:
                    raise Injected()
                return None
            return local if kind == "return" else None
        sys.settrace(tracer)
        try:
            return fn()
        finally:
            sys.settrace(None)

    ops = ["A.level", "A.none", "B.level", "B.reused", "D.discards", "A.snapshot", "A.track", "new", "settings", "scribble", "fail"]

    def fresh(op):
        s = Session()
        try:
            return ("ok",) + tuple(s.run(op))
        except Exception as e:
            return ("raised", repr(e), None)

    return Session, inject, ops, fresh


def in_other_process():
    """Run as a program: the operations in sys.argv as the first ones of this
    process, pickled."""
    root, op, out = sys.argv[1:]
    sys.path.insert(0, root)
    with quiet():
        res = scenario(root)[-1](op)
    with open(out, "wb") as f:
        pickle.dump(res, f)


def groups(ctx):
    Session, inject, ops, fresh = scenario(ctx.root)

    def imported():
        for op in ops:
            fresh(op)
        return sorted(sys.modules)

    # modules imported on first use cost each process a second
    for name in in_child(imported):
        if name not in sys.modules and not name.startswith("trackeddy"):
            try:
                importlib.import_module(name)
            except Exception:
                pass
    base = {op: in_child(fresh, op) for op in ops}

    def same(op, res, t, seq):
        e, d = res
        kind, be, bd = base[op]
        if kind == "raised":
            raise Violation("%s failed in a fresh process: %s" % (op, be))
        t.state(op, e if not is_empty(e) else 0, d if not is_empty(d) else 0)
        diff = tables_equal(be, e)
        t.check(diff is None, "after %r, the eddies of %s differ from those of a fresh process: %s", seq, op, diff)
        diff = tables_equal(bd, d)
        t.check(diff is None, "after %r, the discarded contours of %s differ from those of a fresh process: %s", seq, op, diff)

    def sequence(seq, t):
        s = Session()
        for n, op in enumerate(seq):
            res = s.run(op)
            t.op()
            same(op, res, t, seq[:n])
        bad = s.inputs_changed()
        t.check(bad is None, "%s by %r", bad, seq)

    def fault(case, t):
        kind, n, target, after = case
        s = Session()
        try:
            inject(lambda: s.run(target), kind, n)
            t.trivial()
        except Injected:
            pass
        except Exception:
            pass       # the failure may surface as another exception
        t.op()
        for op in after:
            res = s.run(op)
            t.op()
            same(op, res, t, (target, "failure at %s %d" % (kind, n)))
        bad = s.inputs_changed()
        t.check(bad is None, "%s by a failing %s", bad, target)

    def count(target, kind):
        """The calls of the package to interrupt: in the quick tier the first and
        the last of each call site, in the thorough tier all of them."""
        s = Session()
        inject(lambda: s.run(target), kind, 10 ** 9)
        sites = inject.sites
        if ctx.thorough:
            return list(range(1, len(sites) + 1))
        first, last = {}, {}
        for n, site in enumerate(sites, 1):
            first.setdefault(site, n)
            last[site] = n
        return sorted(set(first.values()) | set(last.values()))

    def process(case, t):
        """The same in a process of its own with another environment."""
        op, env, flags = case
        d = scratch_dir("mc_c09_")
        try:
            out = os.path.join(d, "out")
            r = subprocess.run([sys.executable, "-B", *flags, "-c", "from checks.c09 import in_other_process as f; f()", ctx.root, op, out],
                               cwd=d, env=dict(os.environ, PYTHONPATH=VERIF, **dict(env)), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError("the process ended with %d: %s" % (r.returncode, r.stdout[-1500:]))
            with open(out, "rb") as f:
                kind, e, disc = pickle.load(f)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        t.op()
        t.check(kind == base[op][0], "%s with %r %r: %s %s", op, env, flags, kind, e)
        if kind == "ok":
            same(op, (e, disc), t, "nothing in a process with %r %r" % (env, flags))

    environments = [((("PYTHONHASHSEED", str(k)), ("TZ", tz)), flags) for k, tz, flags in
                    ((0, "UTC", ()), (1, "Asia/Tokyo", ("-O",)), (2, "UTC", ()), (12345, "America/Bogota", ()))]
    yield Group("processes", [(op, *e) for op in ctx.pick(("B.reused", "A.track"), ops) for e in environments], process)

    depth = ctx.pick(2, 4)
    seqs = [s for n in range(1, depth + 1) for s in itertools.product(ops, repeat=n)]
    if not ctx.thorough:
        light = ["A.level", "A.none", "D.discards", "new", "fail"]
        seqs += list(itertools.product(light, repeat=3))
    yield Group("sequences", seqs, sequence, isolate=True)
    faults = []
    for target, after in (("A.level", ("B.level", "A.level")), ("D.discards", ("A.none", "D.discards")),
                          ("B.level", ("D.discards", "A.level"))):
        for kind in ("call", "return"):
            faults += [(kind, k, target, after) for k in in_child(count, target, kind)]
    yield Group("faults", faults, fault, isolate=True)
