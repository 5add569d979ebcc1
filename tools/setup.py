#!/usr/bin/env python3
"""Compiles the simulator core and the reference model (checks build them themselves when missing)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
os.makedirs(os.path.join(V, "build"), exist_ok=True)
out = os.path.join(V, "build", "setup-probe")
check.build("C01", out)
r = subprocess.run([out, "--seed", "1", "--runs", "200", "--workers", "2", "--out", out + ".json"])
for f in (out, out + ".json"):
    if os.path.exists(f):
        os.unlink(f)
sys.exit(0 if r.returncode in (0, 1) else 1)
