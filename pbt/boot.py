"""Set up the import environment of a worker started with `python -S`.

phono3py is imported from /repo (Python sources of the working tree) with the
compiled modules that pbt/build.py built from /repo/c.
"""
import importlib.machinery
import importlib.util
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SITE = "/opt/venv/lib/python3.12/site-packages"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _ExtFinder:
    def __init__(self, libdir):
        self._dir = libdir

    def find_spec(self, name, path=None, target=None):
        if name in ("phono3py._phono3py", "phono3py._phononcalc", "phono3py._recgrid"):
            fn = os.path.join(self._dir, name.split(".")[1] + ".abi3.so")
            loader = importlib.machinery.ExtensionFileLoader(name, fn)
            return importlib.util.spec_from_file_location(name, fn, loader=loader)
        return None


def setup(libdir):
    """Insert paths and the extension finder."""
    here = [p for p in sys.path if p not in ("", os.path.join(ROOT, "pbt"))]
    sys.path[:] = [ROOT, REPO] + here + [SITE, HYP]
    sys.meta_path.insert(0, _ExtFinder(libdir))


ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONWARNINGS": "ignore",
}
