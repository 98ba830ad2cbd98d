#!/opt/venv/bin/python
"""Prints, for DESIGN.md, the bounds and assumptions of every check as the checks state them."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
for f in sorted(os.listdir(os.path.join(V, "checks"))):
    if f.startswith("c") and f.endswith(".py"):
        m = importlib.import_module("checks." + f[:-3])
        print("- **%s** %s" % (f[:-3].upper(), m.BOUNDS))
        for a in m.ASSUMPTIONS:
            print("  - assumes: %s" % a)
