#!/usr/bin/env python3-vt
"""Run one check:  python3-vt run.py C01"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vc import harness  # noqa: E402

pid = sys.argv[1]
mod = importlib.import_module("checks." + pid.lower())
sys.exit(harness.main(pid, mod.run, getattr(mod, "LEVEL", "proof")))
