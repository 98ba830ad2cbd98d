"""C19: detections running in several threads don't disturb each other."""
import itertools

from mc.core import Group, Violation
from mc.sched import Scheduler
from mc.world import dataset, gauss, is_empty, load, quiet, tables_equal, tracker

BOUNDS = ("2 threads x 8 scenarios (different trackers, the same tracker at two levels, with eddies / only discarded / failing detections, "
          "two detections per thread, preparing and detecting a snapshot, with the Gaussian fit, tracking): every schedule with one preemption at any entry or return of a function of "
          "the package, or line of it (quick: at its first 2 visits by the thread, 1 for the fit and tracking), and every schedule with two preemptions at entries and returns (quick: one scenario); 3 threads with one preemption each "
          "(thorough)")
ASSUMPTIONS = ["a detection is disturbed at the entry or return of a function of the package or at one of its lines; "
               "the schedules are those of CPython threads"]


def groups(ctx):
    import numpy as np
    root = ctx.root
    x, y = np.linspace(10, 13, 16), np.linspace(30, 32.6, 14)
    X, Y = np.meshgrid(x, y)
    F = {"A": gauss(X, Y, 11.03, 31.2, 0.4) - gauss(X, Y, 12.4, 31.6, 0.3),
         "B": gauss(X, Y, 12.1, 31.0, 0.38, 0.33) + gauss(X, Y, 10.8, 31.7, 0.5, 0.13),
         "D": gauss(X, Y, 11.5, 31.2, 0.9, 0.17)}
    data = {k: dataset(f, x, y) for k, f in F.items()}

    def loaded(k):
        return load(tracker(data[k], skip=True))

    def scenario(name):
        """-> bodies of the threads, each returning a list of tables."""
        def level(tr, *levels):
            return lambda: [tab for v in levels for tab in tr._detect_one_level(v)]

        if name == "trackers":
            return [level(loaded("A"), 0.35), level(loaded("B"), 0.4)]
        if name == "same tracker":
            tr = loaded("A")
            return [level(tr, 0.35), level(tr, -0.35)]
        if name == "discards":
            return [level(loaded("B"), 0.4), level(loaded("D"), 0.3)]
        if name == "several":
            return [level(loaded("A"), 0.35, 7.0), level(loaded("D"), 0.3, 0.5)]
        if name == "failing":
            tr = loaded("A")

            def body():
                old = tr.identification_criteria
                tr.identification_criteria = {}
                out = []
                try:
                    tr._detect_one_level(0.35)
                except KeyError:
                    pass
                finally:
                    tr.identification_criteria = old
                out += list(tr._detect_one_level(0.35))
                return out
            return [body, level(loaded("B"), 0.4)]
        if name == "snapshots":
            a, b = tracker(data["A"], skip=True), tracker(data["B"], skip=True)
            return [lambda: [a._detect_snapshot(None, [0.35, -0.35])], lambda: [b._detect_snapshot(None, [0.4])]]
        if name == "fitted":
            return [level(load(tracker(data["A"])), 0.35), level(load(tracker(data["B"])), 0.4)]
        if name == "trackings":
            a = tracker(dataset(np.array([F["A"], F["D"], F["A"]]), x, y), skip=True)
            b = tracker(dataset(np.array([F["B"], F["A"]]), x, y), skip=True)
            return [lambda: [a.time_tracking(lin_levels=[0.35])], lambda: [b.time_tracking(lin_levels=[0.3])]]
        if name == "three":
            return [level(loaded("A"), 0.35), level(loaded("B"), 0.4), level(loaded("D"), 0.3)]
        raise KeyError(name)

    names = ["trackers", "same tracker", "discards", "several", "failing", "snapshots", "fitted", "trackings"]
    # of which only the first visits are explored, as they visit many lines
    HEAVY = ("fitted", "trackings")
    alone, points = {}, {}

    def visits(name):
        return ctx.pick(1, 3) if name in HEAVY else ctx.pick(2, 10 ** 9)

    def prepare(name, lines):
        """Results of each thread running alone, and its scheduling points."""
        s = Scheduler(root, scenario(name), [], visits(name) if lines else None, name in HEAVY)
        with quiet():
            res, err = s.run()
        for e in err:
            if e is not None:
                raise e
        alone[name] = res
        points[name, lines] = s.points

    def decide(case, t):
        name, lines, schedule = case
        s = Scheduler(root, scenario(name), schedule, visits(name) if lines else None, name in HEAVY)
        try:
            with quiet():
                res, err = s.run()
        except Exception as e:
            raise Violation("%r: %r" % (case, e))
        t.op(s.switches)
        for k, (got, want) in enumerate(zip(res, alone[name])):
            t.check(err[k] is None, "%r: thread %d raised %r", case, k, err[k])
            t.check(len(got) == len(want), "%r: thread %d", case, k)
            for a, b in zip(want, got):
                d = tables_equal(a, b)
                t.check(d is None, "%r: the table of thread %d is not the one it gets alone: %s", case, k, d)
        t.state(name, schedule[:1], [0 if is_empty(x) else len(x) for r in res for x in r])

    from mc.core import in_child, run_case

    for lines in (False, True):
        for name in [n for n in names if lines or n not in HEAVY] + ([] if lines else ["three"]):
            # alone, each thread after the other, in a process of its own
            def probe():
                prepare(name, lines)
                return alone[name], points[name, lines]
            alone[name], points[name, lines] = in_child(probe)

    one = []
    for name in names:
        for lines in ((True,) if name in HEAVY else (False, True)):
            p = points[name, lines]
            for first in (0, 1):
                one += [(name, lines, ((first, n), (1 - first, None))) for n in range(p[first])]
    yield Group("one preemption", one, decide)
    two = []
    for name in [n for n in names if n not in HEAVY] if ctx.thorough else ("discards",):
        p = points[name, False]
        for first in (0, 1) if ctx.thorough else (0,):
            two += [(name, False, ((first, n), (1 - first, m), (first, None))) for n in range(1, p[first]) for m in range(1, p[1 - first])]
    yield Group("two preemptions", two, decide)
    if ctx.thorough:
        p = points["three", False]
        three = []
        for order in itertools.permutations(range(3)):
            a, b, c = order
            three += [("three", False, ((a, n), (b, m), (c, None), (a, None))) for n in range(p[a]) for m in range(p[b])]
        yield Group("three threads", three, decide)
