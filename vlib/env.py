"""Environment shared by every check: import FIAT from the working tree under
test, never write byte code into it, make z3 available."""
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
import warnings  # noqa: E402
warnings.simplefilter("ignore")
# FIAT itself calls warnings.simplefilter('always', DeprecationWarning)
warnings.showwarning = lambda *a, **k: None

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def load_z3():
    """z3's Python API lives in the tool venv; load that package only, so that
    numpy/sympy keep coming from the environment FIAT is installed in."""
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3
        return z3
    except ImportError:
        pass
    d = os.path.join(_VT, "z3")
    spec = importlib.util.spec_from_file_location(
        "z3", os.path.join(d, "__init__.py"), submodule_search_locations=[d])
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
    return m


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1
