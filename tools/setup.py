#!/usr/bin/env python3
"""Warms the build cache: builds every check once (nothing is kept but the Go build cache)."""
import os, sys, json, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, V)
import run
for cid in sorted(run.CFG):
    s = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        run.build(cid, s)
        print("built", cid, flush=True)
    finally:
        shutil.rmtree(s, ignore_errors=True)
