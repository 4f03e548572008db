"""Process set-up: import ondil from the current working tree, never from stale bytecode."""
import importlib.machinery
import importlib.abc
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("SCIPY_ARRAY_API", "0")
sys.dont_write_bytecode = True

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "src")

_orig_get_code = importlib.machinery.SourceFileLoader.get_code


def _get_code(self, fullname):
    path = self.get_filename(fullname)
    if os.path.realpath(path).startswith(SRC + os.sep):
        return self.source_to_code(self.get_data(path), path)
    return _orig_get_code(self, fullname)


importlib.machinery.SourceFileLoader.get_code = _get_code
if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)


def import_ondil():
    import warnings

    warnings.filterwarnings("ignore")
    import ondil

    where = os.path.realpath(ondil.__file__)
    if not where.startswith(SRC + os.sep):
        raise RuntimeError(f"ondil imported from {where}, expected {SRC}")
    return ondil
