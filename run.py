#!/opt/venv/bin/python
"""run.py CXX [--replay FILE]: run the check of one property on /repo's working tree."""
import os
import sys

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv" and not os.environ.get("MC_REEXEC"):
    os.environ["MC_REEXEC"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import importlib  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
if __name__ == "__main__":
    from mc import core
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    code = core.main(prop, importlib.import_module("checks." + prop.lower()), replay)
    sys.stdout.flush()
    sys.exit(code)
