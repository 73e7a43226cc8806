"""Builds the seam (a small preloaded library) and checks that it works."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker_env as W

W.build_shim()
r = subprocess.run([W.PYTHON, "-c", "import numpy, time; print('seam ok')"], env=W.env(), capture_output=True, text=True)
print(r.stdout, r.stderr)
sys.exit(0 if "seam ok" in r.stdout else 1)
