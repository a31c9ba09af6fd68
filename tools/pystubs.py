"""Stand-ins for the packages that are not installed here, so that a single module of qugar can be imported: `import pystubs` (cwd: the repository)."""
import ast, importlib, importlib.abc, importlib.machinery, os, sys, types
from pathlib import Path

REPO = Path(os.getcwd())
STUBS = ("dolfinx", "ufl", "ffcx", "mpi4py", "petsc4py", "cffi", "numba", "pyvista", "vtk")


class Auto(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = Auto(n, (), {})
        setattr(cls, n, c)
        return c


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n == "__version__":
            return {"dolfinx": "0.10.0", "ffcx": "0.10.0", "ufl": "2025.2.0"}.get(self.__name__.split(".")[0], "1.0.0")
        if n.startswith("__"):
            raise AttributeError(n)
        m = sys.modules.get(self.__name__ + "." + n)
        c = m if m is not None else Auto(n, (), {"__module__": self.__name__})
        setattr(self, n, c)
        return c


class StubFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in STUBS or name in ("qugar.cpp", "basix.ufl"):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = StubModule(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        pass


class LazyPackage(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = Path(self.__path__[0]) / "__init__.py"
        for x in ast.walk(ast.parse(f.read_text())) if f.exists() else ():
            if isinstance(x, ast.ImportFrom):
                for a in x.names:
                    if (a.asname or a.name) == n:
                        return getattr(importlib.import_module("." * x.level + (x.module or ""), self.__name__), a.name)
        raise AttributeError(n)


sys.dont_write_bytecode = True
sys.meta_path.insert(0, StubFinder())
for sub in ("", ".dolfinx", ".mesh", ".quad", ".impl", ".reparam"):
    p = LazyPackage("qugar" + sub)
    p.__path__ = [str(REPO / "python/qugar" / sub[1:])]
    p.has_FEniCSx, p.has_PyVista = True, False
    sys.modules[p.__name__] = p
    if sub:
        setattr(sys.modules["qugar"], sub[1:], p)
