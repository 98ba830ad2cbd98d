"""Scratch build of /repo's current working tree.

`prepare()` copies the package sources of /repo into a fresh scratch directory,
compiles the C extension there and puts the directory first on sys.path, so a
check always runs what is in the working tree and leaves /repo untouched.
"""
import atexit
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
_scratch = None


class BuildError(Exception):
    pass


def _cleanup(path, pid):
    if os.getpid() == pid:
        shutil.rmtree(path, ignore_errors=True)


def scratch_dir(prefix="mc_"):
    """A scratch directory removed when this process ends."""
    path = tempfile.mkdtemp(prefix=prefix)
    atexit.register(_cleanup, path, os.getpid())
    return path


def copy_sources(dst):
    def ignore(_, names):
        return [n for n in names if n == "__pycache__" or n.endswith((".so", ".pyc"))]

    shutil.copytree(os.path.join(REPO, "trackeddy"), os.path.join(dst, "trackeddy"),
                    ignore=ignore)
    shutil.copy(os.path.join(REPO, "setup.py"), os.path.join(dst, "setup.py"))


def prepare():
    global _scratch
    if _scratch:
        return _scratch
    dst = scratch_dir("mc_build_")
    copy_sources(dst)
    env = dict(os.environ, CC="gcc")
    r = subprocess.run([sys.executable, "-B", "setup.py", "-q", "build_ext", "--inplace",
                        "--force"], cwd=dst, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    sys.path.insert(0, dst)
    import trackeddy
    import trackeddy.trackeddy  # noqa: F401
    if not trackeddy.__file__.startswith(dst):
        raise BuildError("imported the wrong trackeddy: %s" % trackeddy.__file__)
    _scratch = dst
    return dst


def prepare_asan():
    """A second scratch build whose extension is instrumented with ASan/UBSan."""
    import numpy
    dst = scratch_dir("mc_asan_")
    copy_sources(dst)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    src = os.path.join(dst, "trackeddy", "src")
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".c"))
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-g", "-O1", "-w",
                        "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                        "-fno-omit-frame-pointer", "-Dmalloc=mc_malloc", "-I" + sysconfig.get_paths()["include"],
                        "-I" + numpy.get_include(), *files,
                        os.path.join(os.path.dirname(os.path.abspath(__file__)), "failmalloc.c"), "-o",
                        os.path.join(dst, "trackeddy", "_cntr" + suffix), "-lm"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
    env = dict(os.environ, LD_PRELOAD=lib, PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66",
               PYTHONPATH=dst)
    return dst, env
