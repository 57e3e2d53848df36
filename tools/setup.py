#!/usr/bin/env python3
"""Warms the Go build cache by building the harness once in each mode; the checks rebuild what they need anyway."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
t = tempfile.mkdtemp(prefix="phabverif.")
try:
    check.build(t, False)
    check.build(t, True)
finally:
    shutil.rmtree(t, ignore_errors=True)
print("harness builds")
