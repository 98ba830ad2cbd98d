#!/bin/bash
# DESIGN.md = tools/DESIGN.in.md with the bounds of the checks and the table of planted bugs
cd "$(dirname "$0")/.."
/opt/venv/bin/python -B tools/gen_seeded.py
/opt/venv/bin/python -B - <<'P'
import subprocess, os
b = subprocess.check_output(["/opt/venv/bin/python", "-B", "tools/gen_bounds.py"], text=True)
s = open("tools/DESIGN.in.md").read()
sd = open("tools/seeded.md").read() if os.path.exists("tools/seeded.md") else "(none yet)"
open("DESIGN.md", "w").write(s.replace("@@BOUNDS@@", b).replace("@@SEEDED@@", sd))
P
