"""Runs inside a Python whose contour extension is built with ASan/UBSan.

argv: JSON list of jobs; every job is enumerated completely. Prints one JSON line
{"ops":..., "states":..., "bad": [...]}; a sanitizer report ends the process.
"""
import gc
import itertools
import json
import sys

import numpy as np
from trackeddy import _cntr

out = {"ops": 0, "states": 0, "bad": [], "cases": 0}
seen = set()


def norm(res):
    return [np.asarray(r).tolist() for r in res]


def trace(c, args):
    out["ops"] += 1
    return repr(norm(c.trace(*args)))


def field(kind, ny, nx, bits):
    i, j = np.meshgrid(np.arange(nx, dtype=float), np.arange(ny, dtype=float))
    v = np.array([(bits >> k) & 1 for k in range(ny * nx)], float).reshape(ny, nx)
    z = np.where(v == 1, 1 + 0.3 * ((i + 2 * j) % 3), -1 - 0.2 * ((2 * i + j) % 3))
    if kind == "nan":
        z.ravel()[bits % z.size] = np.nan
    if kind == "inf":
        z.ravel()[bits % z.size] = np.inf
        z.ravel()[(bits // 7) % z.size] = -np.inf
    if kind == "flat":
        z = v
    return i * 0.5, j * 0.25, z


def sequences(job):
    """Every sequence of calls of one tracer equals fresh tracers, call by call."""
    ny, nx, kind = job["ny"], job["nx"], job["kind"]
    calls = [tuple(c) for c in job["calls"]]
    for bits in range(job["lo"], job["hi"], job["step"]):
        x, y, z = field(kind, ny, nx, bits)
        masks = [None]
        for m in job["masks"]:
            a = np.zeros((ny, nx), dtype=bool)
            for k in m:
                a.ravel()[k % a.size] = True
            masks.append(a)
        for mask in masks:
            fresh = {}
            for call in calls:
                fresh[call] = trace(_cntr.Cntr(x, y, z, mask), call)
                seen.add(hash((bits, fresh[call])))
            for seq in itertools.product(calls, repeat=job["depth"]):
                c = _cntr.Cntr(x.copy(), y.copy(), z.copy(), mask)
                out["cases"] += 1
                for n, call in enumerate(seq):
                    if trace(c, call) != fresh[call]:
                        out["bad"].append("grid %dx%d %s pattern %d mask %r: call %r after %r differs from a fresh tracer"
                                          % (ny, nx, kind, bits, None if mask is None else mask.tolist(), call, seq[:n]))
                        return
                del c


def bad_args(job):
    """Rejected arguments raise and leave nothing behind; the tracer stays usable."""
    x, y, z = field("plain", 4, 4, 0x0660)
    good = repr(norm(_cntr.Cntr(x, y, z).trace(0.0)))
    lists = [[1, 2], None, "a", 3.0, x[0], x[:3], x[:, :3], np.zeros((2, 2, 2)), np.array([["a", "b"], ["c", "d"]]),
             x.astype(complex), np.zeros((0, 0)), np.zeros((0, 4)), np.zeros((4, 0))]
    options = [x] + lists
    for a, b, c in itertools.product(options, repeat=3):
        for m in ([], [None], [x[:2]], [np.zeros((4, 4), bool)], ["no"]):
            out["cases"] += 1
            out["ops"] += 1
            try:
                t = _cntr.Cntr(a, b, c, *m)
            except (TypeError, ValueError, MemoryError, np.exceptions.ComplexWarning):
                continue
            try:
                out["ops"] += 1
                t.trace(0.0)
            except (TypeError, ValueError, MemoryError, RuntimeError):
                pass
    for _ in range(50):
        t = _cntr.Cntr(x, y, z)
        for args in ((), ("a",), (0.0, "b"), (0.0, 1.0, "c"), (1, 2, 3, 4)):
            try:
                t.trace(*args)
                out["bad"].append("trace%r was accepted" % (args,))
            except TypeError:
                pass
            out["ops"] += 1
        if repr(norm(t.trace(0.0))) != good:
            out["bad"].append("a rejected call changed the tracer")
            return


def references(job):
    """No argument, accepted or rejected, is kept after the tracer is released, and
    none is released once too often."""
    x, y, z = (np.ascontiguousarray(a) for a in field("plain", 4, 4, 0x0660))
    good = [x, y, z, np.zeros((4, 4), np.int8)]
    wrong = [np.zeros((3, 4)), np.zeros((4, 3)), np.zeros((0, 4)), np.zeros(4), np.zeros((2, 2, 2)), x.astype(np.float32), x.T, x[::-1],
             np.arange(16).reshape(4, 4), np.zeros((4, 4), complex), np.array([["a", "b"], ["c", "d"]]), np.zeros((3, 4), np.int8),
             np.zeros((4, 4), bool), [[1.0]], None]
    for n in (3, 4):
        for choice in itertools.product(range(len(wrong) + 1), repeat=n):
            if sum(map(bool, choice)) > 2:
                continue
            args = [good[k] if c == 0 else wrong[c - 1] for k, c in enumerate(choice)]
            count = [sys.getrefcount(a) for a in args]
            out["cases"] += 1
            accepted = 0
            for k in range(3):
                out["ops"] += 1
                try:
                    c = _cntr.Cntr(*args)
                    c.trace(0.0)
                    accepted += 1
                    del c
                except (TypeError, ValueError, RuntimeError):
                    pass
            now = [sys.getrefcount(a) for a in args]
            bad = [k for k in range(n) if now[k] != count[k] and args[k] is not None]
            seen.add(hash((choice, accepted)))
            if bad:
                out["bad"].append("references of the arguments %r went from %r to %r (%d of 3 tracers accepted) for %r"
                                  % (bad, count, now, accepted, choice))
                return


def lifetime(job):
    """Results and inputs outlive each other in every deletion order."""
    x0, y0, z0 = field("plain", 5, 6, 0b000000011110010010011110000000)
    want = repr(norm(_cntr.Cntr(x0, y0, z0).trace(0.0)))
    for order in itertools.permutations("xyzcr"):
        out["cases"] += 1
        d = {"x": x0.copy(), "y": y0.copy(), "z": z0.copy()}
        d["c"] = _cntr.Cntr(d["x"], d["y"], d["z"])
        d["r"] = d["c"].trace(0.0)
        for n, k in enumerate(order):
            del d[k]
            gc.collect()
            np.full((5, 6), 7.0)
            if "r" in d and repr(norm(d["r"])) != want:
                out["bad"].append("result changed after deleting %r" % (order[:n + 1],))
            if "c" in d:
                out["ops"] += 1
                if repr(norm(d["c"].trace(0.0))) != want:
                    out["bad"].append("tracer changed after deleting %r" % (order[:n + 1],))


def leaks(job):
    """No reference is gained or lost, and no memory kept, by tracing."""
    import resource
    x, y, z = (np.ascontiguousarray(np.tile(a, (12, 12))) for a in field("plain", 8, 8, 0x3c2442241818))
    x, y = np.meshgrid(np.arange(z.shape[1], dtype=float), np.arange(z.shape[0], dtype=float))
    base = [sys.getrefcount(a) for a in (x, y, z)]
    for _ in range(job["n"]):
        c = _cntr.Cntr(x, y, z)
        out["ops"] += 1
        r = c.trace(0.0)
        if any(sys.getrefcount(p) > 4 for p in r):
            out["bad"].append("a returned array has extra references: %r" % [sys.getrefcount(p) for p in r][:3])
            return
        del c, r
    out["cases"] += job["n"]
    now = [sys.getrefcount(a) for a in (x, y, z)]
    if now != base:
        out["bad"].append("references of the inputs went from %r to %r after %d tracers" % (base, now, job["n"]))


def big(job):
    """Large meshes, chunked tracing included: closed sets of crossings are the same."""
    n = job["n"]
    x, y = np.meshgrid(np.linspace(0, 6, n), np.linspace(0, 5, n - 3))
    z = np.sin(3 * x + job["a"]) * np.cos(2 * y) + 0.1 * np.sin(11 * x * y)
    for lev in np.linspace(-1, 1, 21):
        out["cases"] += 1
        a = _cntr.Cntr(x, y, z).trace(lev)
        for up in (lev, lev + 0.2):
            whole = _cntr.Cntr(x, y, z).trace(lev, up)
            for n in (1, 7, 30):
                compare(job, whole, _cntr.Cntr(x, y, z).trace(lev, up, n), (lev, up, n))
        out["ops"] += 9
        seen.add(hash(repr(norm(a))))


def compare(job, a, b, args):
    """No crossing of the whole trace a is missing from the trace b in chunks."""
    pa = {tuple(p) for s in a[:len(a) // 2] for p in np.round(s, 9).tolist()}
    pb = {tuple(p) for s in b[:len(b) // 2] for p in np.round(s, 9).tolist()}
    if pa - pb:
        out["bad"].append("%d crossings are lost by trace%r of %r" % (len(pa - pb), args, job))


def chunks(job):
    """Every chunk size for every shape of a mesh, rows and columns included, and
    levels that are no numbers."""
    sizes = [-2 ** 63, -2 ** 31, -10, -3, -2, -1, 0, 1, 2, 3, 4, 7, 30, 2 ** 31, 2 ** 32, 2 ** 62, 2 ** 63 - 1]
    levels = [(-0.5, 0.5), (0.0, 1.15), (0.5, -0.5), (0.0, np.nan), (np.nan, 0.0), (-np.inf, 0.0), (0.0, np.inf),
              (-np.inf, np.inf), (np.inf, np.inf), (np.nan, np.nan)]
    for ny, nx in itertools.product(range(1, 8), repeat=2):
        for bits in (0, -1, 0x5a5a5a5a5a5a5, 0x0f3c0f3c0f3c0f, 0x1c2a491c2a49):
            x, y, z = field(job["kind"], ny, nx, bits)
            for lev in levels:
                whole = _cntr.Cntr(x, y, z).trace(*lev)
                for n in sizes:
                    part = _cntr.Cntr(x, y, z).trace(lev[0], lev[1], n)
                    out["ops"] += 1
                    if job["kind"] == "plain" and np.isfinite(lev).all():
                        compare(job, whole, part, lev + (n,))
            out["cases"] += 1
            seen.add(hash((ny, nx, bits)))


def memory(job):
    """Every allocation fails in turn (alone, or with all later ones): an exception, and
    the tracer is still usable."""
    import _testcapi
    import ctypes
    x, y, z = field("plain", 5, 6, 0b000000011110010010011110000000)
    mask = np.zeros(z.shape, bool)
    mask[2, 2] = True
    lib = ctypes.CDLL(_cntr.__file__)
    counter = ctypes.c_long.in_dll(lib, "mc_mallocs")
    fail_at = ctypes.c_long.in_dll(lib, "mc_fail_at")

    def attempt(fn, k, forever):
        """-> whether the allocation was reached, result or exception."""
        err = res = None
        try:
            _testcapi.set_nomemory(k, 0 if forever else k + 1)
            try:
                res = fn()
            finally:
                _testcapi.remove_mem_hooks()
        except Exception as e:
            err = e
        return err, res

    def plain(fn, k):
        err = res = None
        counter.value = 0
        fail_at.value = k
        try:
            res = fn()
        except Exception as e:
            err = e
        reached = counter.value > k
        fail_at.value = -1
        return reached, err, res

    for m in ((), (mask,)):
        for args in ((0.0,), (-0.5, 0.5), (0.0, 0.0, 2), (9.0,)):
            good = repr(norm(_cntr.Cntr(x, y, z, *m).trace(*args)))
            for what in ("init", "trace"):
                for forever in (False, True):
                    k = calm = 0
                    while calm < 8 and k < 400:
                        out["cases"] += 1
                        out["ops"] += 1
                        if what == "init":
                            err, c = attempt(lambda: _cntr.Cntr(x, y, z, *m), k, forever)
                        else:
                            c = _cntr.Cntr(x, y, z, *m)
                            err, r = attempt(lambda: c.trace(*args), k, forever)
                        seen.add(hash((what, args, forever, k, type(err).__name__)))
                        if err is None:
                            calm += 1
                            if what == "trace" and repr(norm(r)) != good:
                                out["bad"].append("%s%r with failing allocation %d gives another result" % (what, args, k))
                                return
                        else:
                            calm = 0
                            if not isinstance(err, (MemoryError, ValueError)):
                                out["bad"].append("%s%r with failing allocation %d raised %r" % (what, args, k, err))
                                return
                        if c is not None and repr(norm(c.trace(*args))) != good:
                            out["bad"].append("the tracer is broken after %s%r with failing allocation %d" % (what, args, k))
                            return
                        c = r = None
                        gc.collect()
                        k += 1
                    if k >= 400:
                        out["bad"].append("%s%r always fails" % (what, args))
                        return
            k, reached = 0, True
            while reached and k < 400:
                c = _cntr.Cntr(x, y, z, *m)
                out["cases"] += 1
                out["ops"] += 1
                reached, err, r = plain(lambda: c.trace(*args), k)
                if reached and not isinstance(err, MemoryError):
                    out["bad"].append("trace%r with failing malloc %d: %r" % (args, k, err))
                    return
                if repr(norm(c.trace(*args))) != good:
                    out["bad"].append("the tracer is broken after trace%r with failing malloc %d" % (args, k))
                    return
                k += 1
    # without initialization
    for args in ((0.0,), (0.0, 1.0)):
        c = _cntr.Cntr.__new__(_cntr.Cntr)
        try:
            c.trace(*args)
            out["bad"].append("tracing without arrays was accepted")
        except (TypeError, ValueError, RuntimeError, AttributeError):
            pass
        del c
    for bad in (([1], y, z), (x, y), (x[:2], y, z)):
        c = _cntr.Cntr.__new__(_cntr.Cntr)
        for n in range(2):
            try:
                c.__init__(*bad)
                out["bad"].append("invalid arguments were accepted")
            except (TypeError, ValueError):
                pass
            try:
                c.trace(0.0)
                out["bad"].append("tracing without arrays was accepted")
            except (TypeError, ValueError, RuntimeError, AttributeError):
                pass
        c.__init__(x, y, z)
        if repr(norm(c.trace(0.0))) != repr(norm(_cntr.Cntr(x, y, z).trace(0.0))):
            out["bad"].append("a tracer is broken after rejecting arguments")
        out["cases"] += 1


for job in json.loads(sys.argv[1]):
    globals()[job["fn"]](job)
out["states"] = len(seen)
print(json.dumps(out))
