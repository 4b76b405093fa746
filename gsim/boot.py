"""Process set-up: one interpreter, one environment, gridded from /repo."""
import gc
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GSIM_REPO", "/repo")
PY = "/opt/venv/bin/python"
SHIM_C = os.path.join(VERIF, "gsim", "shim.c")
BUILD = os.path.join(VERIF, "build")
SHIM = os.path.join(BUILD, "shim.so")


def build_shim():
    if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(SHIM_C):
        return SHIM
    os.makedirs(BUILD, exist_ok=True)
    tmp = f"{SHIM}.{os.getpid()}"
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, SHIM_C, "-ldl"], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.replace(tmp, SHIM)
    return SHIM


def child_env(hashseed="0", shim=True):
    env = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC", "PROJ_NETWORK": "OFF",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": hashseed,
        "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "MPLBACKEND": "Agg",
        "GSIM_BOOTED": "1", "HOME": os.environ.get("HOME", "/tmp"),
        "GSIM_REPO": REPO,
        "PYTHONPATH": REPO + os.pathsep + VERIF,
    }
    for k in ("VERIF_SEED", "VERIF_TIER", "TMPDIR"):
        if k in os.environ:
            env[k] = os.environ[k]
    if shim:
        env["LD_PRELOAD"] = build_shim()
    return env


def reexec():
    """Run the current script again under the simulator's environment."""
    if os.environ.get("GSIM_BOOTED") == "1":
        return
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B", "-X", "faulthandler"] + sys.argv, child_env())


_loaded = False


def load():
    """Import gridded from /repo (never from anywhere else)."""
    global _loaded
    if _loaded:
        return
    import logging
    import types
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "gridded", "_version.py")):
        m = types.ModuleType("gridded._version")
        m.__version__ = m.version = "0.0"
        sys.modules["gridded._version"] = m
    import cell_tree2d  # noqa: F401
    from . import sched
    sched.install()
    import gridded
    import gridded.depth
    import gridded.io.verdat
    import gridded.pysgrid.sgrid
    import gridded.pyugrid.ugrid
    import gridded.pyugrid.uvar
    import scipy.interpolate  # noqa: F401
    import scipy.spatial  # noqa: F401
    assert os.path.abspath(gridded.__file__).startswith(os.path.abspath(REPO) + os.sep), gridded.__file__
    warnings.simplefilter("ignore")
    gc.collect()
    gc.freeze()         # collections in the many forked processes do not look at the libraries again
    _loaded = True
