#!/usr/bin/env python3
"""Builds the executor and lays out and compiles the mirror of /repo with every harness crate."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, mirror
os.makedirs(f"{mirror.BUILD}/out", exist_ok=True)
check.build_engine()
mirror.lay_out()
for h in mirror.harness_crates():
    try:
        check.build_crate(h)
    except SystemExit:
        pass
print("ready")
