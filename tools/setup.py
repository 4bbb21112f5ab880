#!/usr/bin/env python3
"""Checks that the tool chain needed by check.py is there and that the simulator itself compiles."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = tempfile.mkdtemp(prefix="vsim-")
try:
    for f in ("sim", "driver"):
        subprocess.check_call(["g++", "-std=gnu++17", "-O1", "-w", "-c", os.path.join(V, "sim", f + ".cpp"), "-o", os.path.join(t, f + ".o")])
finally:
    shutil.rmtree(t, ignore_errors=True)
