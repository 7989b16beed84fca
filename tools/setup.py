#!/usr/bin/env python3
"""setup_cmd: builds the Go driver (plain and with the race detector) and parses every specification"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
r = run.Run("setup", "quick", 1)
try:
    r.build(False)
    r.build(True)
finally:
    import shutil
    shutil.rmtree(r.dir, ignore_errors=True)
print("built")
