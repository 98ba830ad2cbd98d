"""A deterministic scheduler of threads running the code under test.

Each thread runs under a trace function and may be switched out only at a
scheduling point: the entry or return of a function of the package (and, if
asked, the first `lines` visits of each line; with `cap`, of each function too). A schedule is a list of (thread, points):
run that thread for that many points (None: to its end).
"""
import sys
import threading


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, root, bodies, schedule, lines=None, cap=False):
        self.root, self.bodies, self.lines, self.cap = root, bodies, lines, cap
        self.schedule = list(schedule)
        n = len(bodies)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.done = [False] * n
        self.results = [None] * n
        self.errors = [None] * n
        self.points = [0] * n
        self.budget = [0] * n
        self.switches = 0
        self.free = False
        self.visits = {}

    def _point(self, me):
        self.points[me] += 1
        if self.budget[me] is None:
            return
        if self.budget[me] > 0:
            self.budget[me] -= 1
            return
        # give the turn back, and wait for the next one
        self.back.release()
        self.go[me].acquire()
        if self.budget[me] is not None and self.budget[me] > 0:
            self.budget[me] -= 1

    def _visit(self, *key):
        self.visits[key] = self.visits.get(key, 0) + 1
        return self.visits[key] <= self.lines

    def _trace(self, me):
        def local(frame, event, arg):
            if event == "return":
                if not self.cap or self._visit(me, frame.f_code, "return"):
                    self._point(me)
            elif event == "line" and self.lines:
                if self._visit(me, frame.f_code, frame.f_lineno):
                    self._point(me)
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.root):
                return None
            if not self.cap or self._visit(me, frame.f_code, "call"):
                self._point(me)
            return local
        return tracer

    def _body(self, me):
        self.go[me].acquire()
        sys.settrace(self._trace(me))
        try:
            self.results[me] = self.bodies[me]()
        except BaseException as e:
            self.errors[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.back.release()

    def run(self):
        threads = [threading.Thread(target=self._body, args=(k,), daemon=True) for k in range(len(self.bodies))]
        for th in threads:
            th.start()
        order = self.schedule + [(k, None) for k in range(len(self.bodies))]
        for who, budget in order:
            if self.done[who]:
                continue
            self.budget[who] = budget
            self.switches += 1
            self.go[who].release()
            if not self.back.acquire(timeout=5):
                # It waits for a lock held by another: let them all go on.
                self.free = True
                self.budget = [None] * len(self.bodies)
                for k in range(len(self.bodies)):
                    self.go[k].release()
                break
        for k, th in enumerate(threads):
            th.join(60)
            if th.is_alive():
                raise Deadlock("thread %d does not finish" % k)
        return self.results, self.errors
