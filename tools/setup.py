"""Checks that everything the checks need is installed and that /repo builds."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build  # noqa: E402

print("setup: built in", build.prepare())
