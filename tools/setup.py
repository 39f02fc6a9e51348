#!/usr/bin/env python3
"""Builds every variant once, so that a broken toolchain shows before any check runs."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib  # noqa: E402

for v in ("plain", "asan"):
    print(v, vlib.build(v)["driver"])
