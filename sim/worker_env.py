"""Environment every simulator process runs in, and the build of the shim."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
SHIM = os.path.join(BUILD, "shim.so")
PYTHON = "/opt/venv/bin/python"
REPO = os.environ.get("PHSIM_REPO", "/repo")


def build_shim():
    src = os.path.join(HERE, "shim.c")
    if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = SHIM + ".%d.tmp" % os.getpid()
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"], check=True)
    os.replace(tmp, SHIM)


def env(hashseed=0):
    keep = {k: os.environ[k] for k in ("PATH", "HOME", "VERIF_SEED", "VERIF_TIER", "PHSIM_REPO", "TMPDIR") if k in os.environ}
    keep.update({"LD_PRELOAD": SHIM, "PHSIM_DET": "1", "PYTHONHASHSEED": str(hashseed), "OMP_NUM_THREADS": "1",
                 "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
                 "MPLBACKEND": "Agg", "PYTHONPATH": os.pathsep.join([REPO, HERE, os.path.join(HERE, "stubs")]), "LC_ALL": "C.UTF-8", "TZ": "UTC",
                 "MPLCONFIGDIR": os.path.join(BUILD, "mpl")})
    return keep


def worker_cmd(*args):
    return [PYTHON, "-W", "ignore", os.path.join(HERE, "check.py")] + list(args)
