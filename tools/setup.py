#!/usr/bin/env python3
"""Builds everything once, so that what the toolchain needs is known to be present."""
import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
out = tempfile.mkdtemp(prefix="verif-setup-")
try:
    m = build.build(out)
finally:
    shutil.rmtree(out, ignore_errors=True)
sys.exit(m or 0)
