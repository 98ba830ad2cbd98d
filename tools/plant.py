#!/opt/venv/bin/python
"""plant.py make ID PROPERTY FILE OLD NEW ... : not used by any check.

plant.py try ID [CHECK...]   in a scratch copy: patch applies, builds, demo fails with it and passes without,
                             stable tests pass, and what the checks say about it (default: the one of its property).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-500:]


def build(d):
    return sh([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], d)


def attempt(ident, checks, tests=True):
    sd = os.path.join(os.environ.get("SEEDED", os.path.join(V, "seeded")), ident)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    d = tempfile.mkdtemp(prefix="plant_")
    out = {"id": ident}
    try:
        d2 = os.path.join(d, "repo")
        subprocess.check_call(["cp", "-a", "/repo", d2])
        dd = os.path.join(d, "demo")
        shutil.copytree(sd, dd)
        demo = ["bash", os.path.join(dd, "demo.sh")]
        build(d2)
        rc, o = sh(demo, d2, timeout=300)
        out["clean_demo"] = rc
        if rc:
            print(o[-1500:])
        rc, o = sh(["git", "apply", "--whitespace=nowarn", os.path.join(sd, "patch.diff")], d2)
        if rc:
            print("does not apply", o)
            return out
        rc, o = build(d2)
        out["build"] = rc
        rc, o = sh(demo, d2, timeout=300)
        out["bug_demo"] = rc
        out["demo_says"] = o.strip().splitlines()[-1:] if o.strip() else []
        for c in checks or [meta["property"]]:
            rc, o = sh([os.path.join(V, "run.py"), c], V, dict(ENV, MC_REPO=d2))
            line = [l for l in o.splitlines() if "VIOLATION" in l or "ERROR" in l]
            out[c] = (rc, line[0][:200] if line else o[-200:])
        if tests:
            rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=300", "-p", "randomly",
                        "--randomly-seed=0", "--randomly-dont-reorganize"], d2)
            out["tests"] = rc, o.strip().splitlines()[-1]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    args = [a for a in sys.argv[2:] if not a.startswith("-")]
    res = attempt(args[0], args[1:], "--no-tests" not in sys.argv)
    print(json.dumps(res, indent=1))
