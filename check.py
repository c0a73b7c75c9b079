#!/usr/bin/env python3-vt
"""check.py <ID> [--thorough] [--replay FILE] [--part NAME] [--scale X]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
from vpbt import engine
pid = sys.argv.pop(1)
engine.main("vpbt.props." + pid.lower())
