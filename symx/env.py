"""Interpreter set-up shared by the symbolic workers and the replay process."""
import os
import sys
import warnings

REPO = os.environ.get("METKU_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig" if os.path.isdir("/opt/venv/mplconfig") else "/tmp")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    warnings.filterwarnings("ignore")
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    pv = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if pv not in sys.path:
        sys.path.append(pv)
    sys.setrecursionlimit(10000)


def preload():
    """third-party modules are imported before the patches go in"""
    import importlib
    for m in ("matplotlib.pyplot", "scipy.optimize", "scipy.linalg", "scipy.interpolate", "scipy.integrate",
              "scipy.sparse.linalg", "deap.tools", "ortools.linear_solver.pywraplp", "ortools.sat.python.cp_model",
              "gurobipy", "pandas", "networkx", "sympy", "docplex.mp.model"):
        try:
            importlib.import_module(m)
        except Exception:
            pass
