"""Bounded exhaustive exploration: case groups, parallel runner, evidence.

A check module provides `groups(ctx)`, which yields `Group(name, cases, fn)`.
`cases` is a finite, completely enumerated list; `fn(case, t)` drives the real
code for one case (an input, an operation sequence, a schedule, a fault point)
and compares what it observes with a reference model, calling

  t.op()            for every operation of the real code (a transition),
  t.state(obj...)   with every state observed after one (distinct ones counted),
  t.check(ok, msg)  to decide the property,
  t.trivial()       if the case exercised nothing of interest.

Every case of every group is executed; nothing is sampled.
"""
import ctypes
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import types
from multiprocessing import connection, get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARD_LIMIT = 780.0      # a check gets 900 s
CASE_LIMIT = 120.0      # one case takes milliseconds to seconds


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)
    for o in objs:
        _feed(h, o)
    return h.digest()


def _feed(h, o):
    import numpy as np
    import pandas as pd
    if isinstance(o, pd.DataFrame):
        h.update(repr(list(o.columns)).encode())
        _feed(h, o.reset_index().to_numpy())
    elif isinstance(o, np.ndarray):
        if o.dtype == object:
            h.update(repr(o.tolist()).encode())
        else:
            h.update(repr(o.shape).encode())
            h.update(np.round(o.astype(float), 9).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(b"(")
        for x in o:
            _feed(h, x)
        h.update(b")")
    else:
        h.update(repr(o).encode())


class Trace:
    def __init__(self):
        self.ops = 0
        self.states = set()
        self.is_trivial = False
        self.validated = 0

    def op(self, n=1):
        self.ops += n

    def state(self, *objs):
        d = digest(*objs)
        self.states.add(d)
        return d

    def trivial(self):
        self.is_trivial = True

    def validate(self, n=1):
        """The implementation was compared with the model at n points."""
        self.validated += n

    def check(self, ok, msg, *args):
        self.validated += 1
        if not ok:
            raise Violation(msg % args if args else msg)


class Group:
    def __init__(self, name, cases, fn, limit=None, describe=repr, isolate=False):
        self.isolate = isolate
        self.name = name
        self.cases = cases if isinstance(cases, (list, range)) else list(cases)
        self.fn = fn
        self.limit = (limit or CASE_LIMIT) * (10 if os.environ.get("VERIF_TIER") == "thorough" else 1)
        self.describe = describe


def _in_package(tb, roots):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if any(f.startswith(r) for r in roots):
            return True
        tb = tb.tb_next
    return False


_ROOTS = []


def _judge(e, roots):
    """-> (kind, message) of an exception that isn't a Violation."""
    text = "".join(traceback.format_exception(e)[-6:])
    if _in_package(e.__traceback__, roots):
        # the code under test raised on a valid input
        return "violation", "the code raised %r\n%s" % (e, text)
    internal = isinstance(e, AttributeError) and (isinstance(e.obj, (type, types.ModuleType)) or str(e.name).startswith("_"))
    if isinstance(e, (AttributeError, LookupError, TypeError, ValueError, ArithmeticError)) and not internal:
        # on the tree it was written for, the check can examine every result
        return "violation", "the result isn't of the form it has to be: %r\n%s" % (e, text)
    return "error", text


def _again(judged):
    kind, text = judged
    raise (Violation if kind == "violation" else HarnessError)(text)


def run_case(fn, case, roots):
    """-> (trace, kind, message), kind in ok / violation / error."""
    t = Trace()
    try:
        fn(case, t)
        return t, "ok", ""
    except Violation as e:
        return t, "violation", str(e)
    except MemoryError:
        raise
    except Exception as e:
        return (t,) + _judge(e, roots)


def in_child(fn, *args):
    """Run fn(*args) in a forked process and return its result: what happens in
    it starts from the state of this process and leaves no trace in it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            # nothing goes on without its parent
            ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
            os.close(r)
            data = pickle.dumps(fn(*args))
        except Violation as e:
            data = pickle.dumps(("__violation__", str(e)))
            code = 1
        except (MemoryError, HarnessError):
            data = pickle.dumps(("__error__", traceback.format_exc()))
            code = 1
        except Exception as e:
            data = pickle.dumps(("__%s__" % _judge(e, _ROOTS)[0], _judge(e, _ROOTS)[1]))
            code = 1
        except BaseException:
            data = pickle.dumps(("__error__", traceback.format_exc()))
            code = 1
        try:
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Violation("the process running the code died (status %d)" % status)
    res = pickle.loads(data)
    if isinstance(res, tuple) and len(res) == 2 and res[0] == "__error__":
        raise HarnessError(res[1])
    if isinstance(res, tuple) and len(res) == 2 and res[0] == "__violation__":
        raise Violation(res[1])
    return res


def run_isolated(fn, case, roots):
    try:
        return in_child(run_case, fn, case, roots)
    except Violation as e:
        return Trace(), "violation", str(e)


def _worker(conn, groups, roots, at):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        g, lo, hi = job
        ops = triv = val = 0
        states = set()
        bad = []
        for i in range(lo, hi):
            at[0], at[1] = i, time.time()
            runner = run_isolated if groups[g].isolate else run_case
            t, kind, msg = runner(groups[g].fn, groups[g].cases[i], roots)
            ops += t.ops
            triv += t.is_trivial
            val += t.validated
            states |= t.states
            if kind != "ok":
                bad.append((i, kind, msg))
        conn.send((g, lo, hi, ops, triv, val, states, bad))
    conn.close()
    os._exit(0)


class Pool:
    def __init__(self, groups, roots, n):
        self.groups, self.roots = groups, roots
        self.ctx = get_context("fork")
        self.workers = []
        for _ in range(n):
            self._spawn()

    def _spawn(self):
        a, b = self.ctx.Pipe()
        at = self.ctx.RawArray("d", 2)      # the case it is at, since when
        p = self.ctx.Process(target=self._main, args=(a, b, at), daemon=True)
        p.start()
        b.close()
        self.workers.append({"p": p, "c": a, "at": at, "job": None, "since": 0.0})

    def _main(self, a, b, at):
        a.close()
        try:
            _worker(b, self.groups, self.roots, at)
        finally:
            os._exit(70)

    def kill(self, w):
        try:
            w["p"].kill()
        except Exception:
            pass
        w["p"].join(5)
        w["c"].close()
        self.workers.remove(w)

    def run(self, jobs, on_result, on_dead, stop):
        """jobs: iterator of (group, lo, hi)."""
        jobs = iter(jobs)
        extra = []
        done = False
        while True:
            for w in self.workers:
                if w["job"] is None and not done and not stop():
                    try:
                        job = extra.pop() if extra else next(jobs)
                    except StopIteration:
                        done = True
                        break
                    w["job"], w["since"] = job, time.time()
                    w["c"].send(job)
            busy = [w for w in self.workers if w["job"] is not None]
            if not busy:
                if extra and not stop():
                    done = False
                    continue
                return
            ready = connection.wait([w["c"] for w in busy], timeout=1.0)
            now = time.time()
            for w in list(busy):
                if w["c"] in ready:
                    try:
                        res = w["c"].recv()
                    except (EOFError, ConnectionError):
                        job = w["job"]
                        self.kill(w)
                        self._spawn()
                        self._dead(job, "the process running the code died", extra, on_dead)
                        done = False
                        continue
                    w["job"] = None
                    on_result(*res)
                else:
                    g, lo, hi = w["job"]
                    i, since = int(w["at"][0]), max(w["at"][1], w["since"])
                    if lo <= i < hi and w["at"][1] >= w["since"] and now - since > self.groups[g].limit:
                        self.kill(w)
                        self._spawn()
                        on_dead(g, i, "did not finish in %d s" % self.groups[g].limit)
                        extra += [j for j in ((g, lo, i), (g, i + 1, hi)) if j[1] < j[2]]
                        done = False
                    elif now - w["since"] > self.groups[g].limit * (1 + 0.1 * (hi - lo)):
                        self.kill(w)
                        self._spawn()
                        self._dead((g, lo, hi), "did not finish", extra, on_dead)
                        done = False

    def _dead(self, job, why, extra, on_dead):
        g, lo, hi = job
        if hi - lo == 1:
            on_dead(g, lo, why)
        else:       # find the case by running its halves
            mid = (lo + hi) // 2
            extra.append((g, lo, mid))
            extra.append((g, mid, hi))

    def close(self):
        for w in list(self.workers):
            self.kill(w)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.level = "model_checking"
        self.assumptions = []
        self.notes = {}

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out.append((key.replace("key=", "", 1).strip(), what))
    return out


def main(prop, module, replay=None):
    start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import build
    try:
        root = build.prepare()
    except (build.BuildError, ImportError, SyntaxError) as e:
        print("ERROR: /repo does not build: %s" % e)
        return 2
    ctx = Ctx(prop, tier, seed)
    ctx.root = root
    _ROOTS[:] = [root]
    try:
        groups = list(module.groups(ctx))
    except (MemoryError, HarnessError, ImportError, OSError):
        raise
    except Exception as e:
        # the first runs of the code, that others are compared with
        judged = (("violation", str(e)) if isinstance(e, Violation) else
                  _judge(e, [root] + list(getattr(ctx, "extra_roots", []))))
        groups = [Group("setup", ["references"], lambda case, t: _again(judged))]
    roots = [root] + list(getattr(ctx, "extra_roots", []))
    _ROOTS[:] = roots
    if replay:
        data = json.load(open(replay))
        g = next((g for g in groups if g.name == data["group"]), None)
        if g is None:
            print("ok" if data["group"] == "setup" else "error: no group %r" % data["group"])
            return 0 if data["group"] == "setup" else 2
        t, kind, msg = (run_isolated if g.isolate else run_case)(g.fn, g.cases[data["index"]], roots)
        print(kind, msg)
        return 0 if kind == "ok" else 1

    known = known_findings(prop)
    tot = {"ops": 0, "triv": 0, "val": 0, "cases": 0}
    per = {g.name: 0 for g in groups}
    states = set()
    bad, seen_known = [], []
    truncated = [False]

    def on_result(g, lo, hi, ops, triv, val, st, b):
        tot["ops"] += ops
        tot["triv"] += triv
        tot["val"] += val
        tot["cases"] += hi - lo
        per[groups[g].name] += hi - lo
        states.update(st)
        for i, kind, msg in b:
            report(g, i, kind, msg)

    def on_dead(g, i, why):
        tot["cases"] += 1
        report(g, i, "violation", why)

    def report(g, i, kind, msg):
        key = "%s %s" % (groups[g].name, groups[g].describe(groups[g].cases[i]))
        for k, what in known:
            if k == key:
                seen_known.append("%s %s" % (key, what))
                return
        bad.append((g, i, kind, msg))

    def stop():
        if any(b[2] == "violation" for b in bad) or len(bad) > 20:
            return True
        if time.time() - start > HARD_LIMIT and not ctx.thorough:
            truncated[0] = True
            return True
        return False

    def jobs():
        for gi, g in enumerate(groups):
            n = len(g.cases)
            step = max(1, min(getattr(g, "chunk", 10 ** 9), n // 64, 200))
            for lo in range(0, n, step):
                yield gi, lo, min(n, lo + step)

    pool = Pool(groups, roots, int(os.environ.get("MC_PROCS", "8")))
    try:
        pool.run(jobs(), on_result, on_dead, stop)
    finally:
        pool.close()
    if hasattr(module, "finish"):
        module.finish(ctx)

    wall = time.time() - start
    samples = []
    for g in groups[:6]:
        if len(g.cases):
            samples.append({"group": g.name, "case": g.describe(g.cases[len(g.cases) // 2])[:400]})
    cov = {
        "states": len(states),
        "transitions": tot["ops"],
        "traces_validated_against_impl": tot["cases"],
        "evaluations": tot["val"],
        "distinct_nontrivial": tot["cases"] - tot["triv"],
        "rule": getattr(module, "RULE", "every enumerated case is executed on the real code; "
                        "a case is non-trivial if it exercises the behaviour of the property"),
        "samples": samples,
        "groups": per,
        "exhaustive": not truncated[0] and not bad,
        "bounds": getattr(module, "BOUNDS", ""),
    }
    cov.update(ctx.notes)
    violations = [b for b in bad if b[2] == "violation"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": ctx.level, "coverage": cov,
          "assumptions": list(getattr(module, "ASSUMPTIONS", [])) + ctx.assumptions,
          "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for line in sorted(set(seen_known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    print("%s %s: %d cases, %d states, %d operations, %d comparisons, %.1f s%s" % (
        prop, tier, tot["cases"], len(states), tot["ops"], tot["val"], wall,
        " (truncated)" if truncated[0] else ""))
    if violations:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        g, i, kind, msg = violations[0]
        path = os.path.join(VERIF, "replay", "%s_%s_%d.json" % (prop, groups[g].name, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "group": groups[g].name, "index": i, "tier": tier,
                       "case": groups[g].describe(groups[g].cases[i])[:4000],
                       "message": msg}, f, indent=1)
        print("case %s[%d] = %s" % (groups[g].name, i,
                                     groups[g].describe(groups[g].cases[i])[:600]))
        print(msg[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if bad:
        for g, i, kind, msg in bad[:3]:
            print("ERROR in the check, case %s[%d]: %s" % (groups[g].name, i, msg))
        return 2
    return 0
