"""Whose fault an exception is: the code under test, a stand-in that lacks something, or the harness that could not read a result."""
import functools
import os
import re
import sys
import types
from pathlib import Path

VERIF = str(Path(__file__).resolve().parent.parent)
REPO = os.environ.get("QUGAR_REPO", "/repo")


@functools.cache
def _sources():
    return "\n".join(p.read_text() for p in Path(REPO, "python", "qugar").rglob("*.py"))


def in_repo(filename):
    return "/python/qugar/" in filename


def _stand_in(o):
    """an object, class or module of ours"""
    if isinstance(o, types.SimpleNamespace):
        return True
    if isinstance(o, types.ModuleType):
        return not in_repo(getattr(o, "__file__", None) or "") and not o.__name__.startswith(("numpy", "basix"))
    m = (o if isinstance(o, type) else type(o)).__module__
    return m.split(".")[0] in ("dolfinx", "ufl", "ffcx", "mpi4py", "petsc4py", "cffi", "numba", "pyvista", "vtk") or (getattr(sys.modules.get(m), "__file__", None) or "").startswith(VERIF + "/")


def gap(e):
    """the stand-ins lack what the code uses: nothing is said of the code"""
    if isinstance(e, AttributeError) and e.obj is not None:
        return _stand_in(e.obj)
    if isinstance(e, ImportError):
        return True
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got an unexpected|got multiple|missing \d|takes|got some pos)", str(e))
        if m:
            parts = [p for p in m[1].split(".") if p not in ("__init__", "<locals>", "<lambda>")]
            return not parts or not re.search(rf"\b(def|class) {re.escape(parts[-1])}\b", _sources())
        return "is not subscriptable" in str(e) and "Stub" in str(e)
    return False


def unreadable(e, tb):
    """the harness could not make sense of what the code returned"""
    if any(in_repo(f.filename) for f in tb):
        return False
    return isinstance(e, (IndexError, KeyError, ValueError, StopIteration, ZeroDivisionError)) or isinstance(e, (TypeError, AttributeError)) and "NoneType" in str(e)
