#!/usr/bin/env python3-vt
"""nothing is built ahead of time: every check rebuilds from /repo; this only checks that the tools are there"""
import shutil, sys
import z3
missing = [t for t in ("clang", "clang++", "cmake", "ninja", "cbmc", "goto-cc", "goto-instrument") if not shutil.which(t)]
print("z3", z3.get_version_string(), "missing:", missing)
sys.exit(1 if missing else 0)
