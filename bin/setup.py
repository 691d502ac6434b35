#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import os, shutil, sys
missing = [t for t in ("clang++", "g++") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + " ".join(missing))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
