#!/usr/bin/env python3
"""Builds the extension module and the C++ replay driver (each check does the same on its own when needed)."""
import pathlib
import sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.dont_write_bytecode = True
from vp import build  # noqa: E402
print(build.build_ext())
for g in build.GROUPS:
    print(build.build_driver(g))
