#!/usr/bin/env python3-vt
"""Checks that the tools the framework needs are there and that /repo's IR and extension can be built; keeps nothing."""
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build
import z3
d = build.scratch()
try:
    build.build_ir(d)
    print("z3", z3.get_version_string(), "IR ok")
finally:
    shutil.rmtree(d, ignore_errors=True)
