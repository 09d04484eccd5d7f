#!/usr/bin/env python3
"""Checks that the tools are there and that the specification parses (nothing has to be built)."""
import os, subprocess, sys, glob
root = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(root, "lib"))
import vlib
os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
subprocess.check_call([vlib.PY, "-c", "import sys; sys.path.insert(0, '/repo'); import soil"], cwd="/tmp", env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(root, "spec", "Tr*.tla")))
for m in mods:
    p = subprocess.run(["java", "-cp", vlib.CP, "tla2sany.SANY", m], cwd=os.path.join(root, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or "*** Errors" in p.stdout or "Fatal" in p.stdout:
        print(p.stdout)
        sys.exit(1)
print("ok:", len(mods), "trace specifications parse")
