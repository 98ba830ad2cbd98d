"""C02: the contour tracer is memory safe and keeps no state between calls."""
import json
import os
import resource
import signal
import subprocess
import sys

from mc import build
from mc.core import Group, HarnessError, VERIF

BOUNDS = ("ASan/UBSan build: every above/below pattern of every mesh up to 3x3 (thorough: 3x4, 4x3) x 4 value families "
          "(finite, NaN, infinite, flat) x 5 masks x every sequence of 2 (3) of 7 calls (line, filled, chunked); all "
          "combinations of 14 valid/invalid arguments, and the references of up to two wrong ones of 15; all 120 orders of releasing inputs, tracer and result; "
          "every allocation of a tracer and of a trace failing, alone or with all later ones; tracers without arrays; "
          "meshes of 60..90 points traced whole and in chunks; 17 chunk sizes (negative and huge ones too) x 10 pairs of "
          "levels (infinite and missing ones too) for every mesh from 1x1 to 7x7")
ASSUMPTIONS = ["undefined behaviour is what ASan and UBSan (gcc 13) report"]


def groups(ctx):
    root, env = build.prepare_asan()
    limit = ctx.pick(150, 1500)
    driver = os.path.join(VERIF, "mc", "asan_driver.py")

    def cpu_limit():
        # of processor time: a slow or busy machine ends nothing
        resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 10))

    def run(job, t):
        r = subprocess.run([sys.executable, "-B", driver, json.dumps([job])], env=env, cwd=root,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=cpu_limit)
        t.check(r.returncode != -signal.SIGXCPU, "calls of the tracer do not end")
        if r.returncode:
            err = r.stderr
            bad = "Sanitizer" in err or "runtime error" in err or r.returncode < 0
            if not bad and "cntr" not in err:
                raise HarnessError(err[-2000:])
            t.check(False, "exit %d: %s", r.returncode, err[:2500])
        out = json.loads(r.stdout.strip().splitlines()[-1])
        t.op(out["ops"])
        for i in range(out["states"]):
            t.states.add((json.dumps(job) + str(i)))
        t.validate(out["cases"])
        t.check(not out["bad"], "%s", "; ".join(out["bad"][:3]))

    calls = [(0.0,), (1.1,), (-1.1,), (-0.5, 0.5), (0.0, 1.15), (-0.5, 0.5, 1), (0.0, 1.15, 2)]
    masks = [[4], [0], [0, 8], [1, 2, 5]]
    jobs = [{"fn": "bad_args"}, {"fn": "lifetime"}, {"fn": "references"}, {"fn": "memory"}, {"fn": "leaks", "n": 300}]
    jobs += [{"fn": "chunks", "kind": kind} for kind in ("plain", "nan", "inf")]
    jobs += [{"fn": "big", "n": n, "a": a} for n in ctx.pick((60,), (60, 75, 90)) for a in (0.3, 1.0)]
    depth = ctx.pick(1, 3)
    for kind in ("plain", "nan", "inf", "flat"):
        for ny in (1, 2, 3):
            for nx in (1, 2, 3):
                n = 2 ** (nx * ny)
                if n <= 64:
                    jobs.append(dict(fn="sequences", ny=ny, nx=nx, kind=kind, lo=0, hi=n, step=1, calls=calls,
                                     depth=2, masks=masks))
                else:
                    for lo in range(4):
                        jobs.append(dict(fn="sequences", ny=ny, nx=nx, kind=kind, lo=lo, hi=n, step=4, calls=calls,
                                         depth=ctx.pick(2, 3), masks=masks))
        for ny, nx in ((3, 4), (4, 3)):
            for lo in range(ctx.pick(8, 32)):
                st = ctx.pick(64, 32)
                jobs.append(dict(fn="sequences", ny=ny, nx=nx, kind=kind, lo=lo * (st // ctx.pick(8, 32)), hi=4096, step=st,
                                 calls=calls, depth=depth if depth < 3 else 2, masks=masks))
    def rss(case, t):
        # the normal build: memory does not grow with the number of traces
        import numpy as np
        from trackeddy.geometry import extract_contours
        n = 150
        X, Y = np.meshgrid(np.linspace(0, 60, n), np.linspace(0, 60, n))
        Z = np.sin(X) * np.cos(Y)

        def mem():
            return int(open("/proc/self/statm").read().split()[1]) * 4096
        for _ in range(30):
            extract_contours(X, Y, Z, case)
        a = mem()
        for _ in range(600):
            extract_contours(X, Y, Z, case)
            t.op()
        grown = mem() - a
        t.state(case)
        t.check(grown < 30e6, "%d bytes are kept after 600 traces", grown)

    yield Group("sanitized", jobs, run, limit=600)
    yield Group("memory", [0.0, 0.3, -0.7], rss)
