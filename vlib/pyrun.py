"""Runs one harness:  pyrun.py HARNESS FUNCTION MODE(json) -> result as JSON on the last line of stdout."""
import builtins
import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import math
import os
import resource
import sys
import time
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("QUGAR_REPO", "/repo"))
sys.path.insert(0, str(VERIF / "vlib"))
sys.path.insert(0, str(VERIF / "pyh"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import numpy as np  # noqa: E402

STUBS = ("dolfinx", "ufl", "ffcx", "mpi4py", "petsc4py", "cffi", "numba", "pyvista", "vtk")


class _Auto(type):
    """a class whose missing attributes are classes of the same kind"""
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = _Auto(n, (), {})
        setattr(cls, n, c)
        return c

    def __call__(cls, *a, **k):
        if "__init__" in cls.__dict__ or cls.__mro__[1] is not object:
            return type.__call__(cls, *a, **k)
        o = type.__call__(cls)
        o.__dict__["args"], o.__dict__["kwargs"] = a, k
        return o


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__") and n != "__version__":
            raise AttributeError(n)
        if n == "__version__":
            root = self.__name__.split(".")[0]
            v = {"dolfinx": "0.10.0", "ffcx": "0.10.0", "ufl": "2025.2.0", "basix": "0.10.0"}.get(root, "1.0.0")
            return v
        m = sys.modules.get(self.__name__ + "." + n)
        c = m if m is not None else _Auto(n, (), {"__module__": self.__name__})
        setattr(self, n, c)
        return c


class StubFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in STUBS or name == "qugar.cpp" or name == "basix.ufl":
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = StubModule(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        f = VERIF / "pystub" / (module.__name__ + ".py")
        if f.exists():
            exec(compile(f.read_text(), str(f), "exec"), module.__dict__)


class LazyPackage(types.ModuleType):
    """a package whose exported names are looked up, when used, where its __init__.py imports them from"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = Path(self.__path__[0]) / "__init__.py"
        for x in ast.walk(ast.parse(f.read_text())) if f.exists() else ():
            if isinstance(x, ast.ImportFrom):
                for a in x.names:
                    if (a.asname or a.name) == n:
                        v = getattr(importlib.import_module("." * x.level + (x.module or ""), self.__name__), a.name)
                        if isinstance(v, types.FunctionType) or isinstance(v, type):
                            setattr(self, n, v)
                        return v
        raise AttributeError(n)


def setup_packages(stub=True):
    if stub:
        sys.meta_path.insert(0, StubFinder())
    for name, path in (("qugar", REPO / "python/qugar"), ("qugar.dolfinx", REPO / "python/qugar/dolfinx"), ("qugar.mesh", REPO / "python/qugar/mesh"), ("qugar.quad", REPO / "python/qugar/quad"),
                       ("qugar.impl", REPO / "python/qugar/impl"), ("qugar.reparam", REPO / "python/qugar/reparam")):
        p = LazyPackage(name)
        p.__path__ = [str(path)]
        p.has_FEniCSx, p.has_PyVista = stub, False
        if name == "qugar.impl":
            p.ImplicitFunc = _Auto("ImplicitFunc", (), {})
        sys.modules[name] = p
        if "." in name:
            setattr(sys.modules["qugar"], name.split(".")[1], p)


class AssumptionFailed(BaseException):
    pass


class AssertionViolated(BaseException):
    pass


class API:
    """what harnesses use; concrete mode: plain Python values"""
    def __init__(self, sym, inputs=None):
        self.sym, self.given = sym, inputs or {}
        self.np = None
        self.reached = []
        self.params = {}

    # modules under test
    def mod(self, name):
        first = name not in sys.modules
        m = importlib.import_module(name)
        if self.sym:
            for n in list(sys.modules):
                if n.split(".")[0] == "qugar":
                    self._patch(sys.modules[n])
        del first
        return m

    def _patch(self, m):
        import psx
        d = m.__dict__
        if d.get("__psx__") or not getattr(m, "__file__", None):
            return
        d["__psx__"] = True
        for k, v in list(d.items()):
            if v is np:
                d[k] = psx.facade
            elif v is np.linalg:
                pass
        d.setdefault("int", psx.SIntType)
        d.setdefault("float", psx.SFloatType)
        d.setdefault("math", None) if False else None
        if d.get("math") is math:
            d["math"] = MathFacade()

    def fresh(self):
        """forgets the modules under test (so that module state does not leak between paths)"""
        for n in list(sys.modules):
            if n.startswith("qugar.") and getattr(sys.modules[n], "__file__", None):
                del sys.modules[n]

    # inputs
    def _new(self, name, kind):
        if name in self.names_used():
            raise RuntimeError("input drawn twice: " + name)

    def names_used(self):
        return ()

    def int(self, name, lo, hi):
        if self.sym:
            import psx
            import z3
            e = z3.Int(name)
            psx.ctx.inputs[name] = ("int", e)
            psx.ctx.add(z3.And(e >= lo, e <= hi))
            return psx.SInt(e)
        v = builtins.int(self.given.get(name, lo))
        self.assume(lo <= v <= hi)
        return v

    def real(self, name, lo=None, hi=None):
        if self.sym:
            import psx
            import z3
            e = z3.Real(name)
            psx.ctx.inputs[name] = ("real", e)
            if lo is not None:
                psx.ctx.add(e >= psx._real(lo))
            if hi is not None:
                psx.ctx.add(e <= psx._real(hi))
            return psx.SReal(e)
        return builtins.float(self.given.get(name, lo if lo is not None else 0.0 if hi is None else hi))

    def bool(self, name):
        if self.sym:
            import psx
            import z3
            e = z3.Bool(name)
            psx.ctx.inputs[name] = ("bool", e)
            return psx.SBool(e)
        return builtins.bool(self.given.get(name, False))

    def choice(self, name, lo, hi):
        v = self.int(name, lo, hi)
        return builtins.int(v) if not self.sym else v.__index__()

    def flag(self, name):
        return builtins.bool(self.bool(name))

    def ints(self, name, n, lo, hi, dtype=np.int64):
        return self.array([self.int(f"{name}{i}", lo, hi) for i in range(n)], dtype)

    def reals(self, name, shape, lo=None, hi=None, dtype=np.float64):
        shape = (shape,) if isinstance(shape, builtins.int) else tuple(shape)
        n = math.prod(shape)
        return self.array([self.real(f"{name}{i}", lo, hi) for i in range(n)], dtype).reshape(shape)

    def array(self, vals, dtype):
        if self.sym:
            import psx
            return psx.SArr.of(vals, dtype) if len(vals) else psx.SArr.new(0, np.dtype(dtype))
        return np.array(vals, dtype=dtype)

    # logic
    def assume(self, c):
        if self.sym:
            import psx
            import z3
            c = psx._bool(c) if not isinstance(c, (builtins.bool, np.bool_)) else z3.BoolVal(builtins.bool(c))
            psx.ctx.add(c)
            r = psx.ctx.check() if psx.ctx.pos >= len(psx.ctx.prefix) else z3.sat
            if r == z3.unsat:
                raise psx.Infeasible()
        elif not c:
            raise AssumptionFailed()

    def gap(self, what):
        """the stand-in has no such thing: the path is not decided"""
        if self.sym:
            import psx
            raise psx.Unsupported("stand-in: " + what)
        raise AssumptionFailed(what)

    def ns(self, name, **k):
        """a stand-in module"""
        H = self

        class NS(types.SimpleNamespace):
            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                H.gap(name + "." + n)
        return NS(**k)

    def check(self, c, msg):
        if self.sym:
            import psx
            import z3
            st = psx.ctx.asserts.setdefault(msg, [0, 0])
            st[0] += 1
            if isinstance(c, psx.Bits):
                raise psx.Unsupported("bits as a condition")
            if isinstance(c, psx.SInt):
                c = c != 0
            if not isinstance(c, psx.SBool):
                if not c:
                    psx.ctx.fail("assert", msg)
                    raise psx.Cut()
                return
            st[1] += 1
            n = z3.Not(c.e)
            r = psx.ctx.may(n)
            if r == z3.sat:
                psx.ctx.fail("assert", msg, n)
                psx.ctx.add(c.e)
                if psx.ctx.check() == z3.unsat:
                    raise psx.Cut()
            elif r == z3.unknown:
                psx.ctx.note("solver gave no answer for: " + msg)
        elif not c:
            raise AssertionViolated(msg)

    def reach(self, name):
        if self.sym:
            import psx
            import z3
            if name not in psx.ctx.reached and psx.ctx.check() == z3.sat:
                psx.ctx.reached[name] = psx.ctx.model(psx.ctx.solver.model())
        else:
            self.reached.append(name)

    def all(self, xs):
        xs = list(xs)
        if self.sym:
            import psx
            return psx.s_and(*xs)
        return all(xs)

    def any(self, xs):
        xs = list(xs)
        if self.sym:
            import psx
            return psx.s_or(*xs)
        return any(xs)

    def no(self, x):
        if self.sym:
            import psx
            return psx.s_not(x)
        return not x

    def implies(self, a, b):
        return self.any([self.no(a), b])

    def iff(self, a, b):
        return self.any([self.all([a, b]), self.all([self.no(a), self.no(b)])])

    def ite(self, c, a, b):
        if self.sym:
            import psx
            return psx.s_ite(c, a, b)
        return a if c else b

    def eq(self, a, b):
        """equality; reals: up to rounding when replayed"""
        if self.sym:
            import psx
            if self.opaque(a) or self.opaque(b):
                return builtins.bool(isinstance(a, psx.Bits) and isinstance(b, psx.Bits) and a == b)
            return psx.s_eq(a, b)
        if isinstance(a, (builtins.float, np.floating, complex, np.complexfloating)) or isinstance(b, (builtins.float, np.floating, complex)):
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) if not (isinstance(a, np.float32) or isinstance(b, np.float32)) else abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
        return a == b

    def opaque(self, x):
        """not a number: not finite, or the bits of a value of another kind"""
        if self.sym:
            import psx
            if isinstance(x, psx.Bits):
                return True
        return isinstance(x, (builtins.float, np.floating)) and not math.isfinite(x)

    def complex(self, a, b):
        if self.sym:
            import psx
            return psx.SComplex(a, b)
        return builtins.complex(a, b)

    def member(self, x, xs):
        return self.any([self.eq(x, y) for y in xs])

    def raises(self, f):
        """(raised, value)"""
        try:
            return None, f()
        except Exception as e:  # noqa: BLE001
            return e, None

    def vals(self, a):
        """items of an array in order"""
        if self.sym:
            import psx
            if isinstance(a, psx.SArr):
                return a.values()
        return list(np.asarray(a).ravel())


class MathFacade:
    def __getattr__(self, n):
        return getattr(math, n)

    def ceil(self, x):
        import psx
        return x.__ceil__() if isinstance(x, psx.SReal) else x if isinstance(x, psx.SInt) else math.ceil(x)

    def floor(self, x):
        import psx
        return x.__floor__() if isinstance(x, psx.SReal) else x if isinstance(x, psx.SInt) else math.floor(x)

    def prod(self, xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r


def monitor(funcs):
    m = sys.monitoring
    m.use_tool_id(4, "psx")

    def start(code, off):
        if "/python/qugar/" in code.co_filename:
            funcs.add(code.co_filename.split("/python/")[1] + ":" + code.co_qualname)
        return m.DISABLE
    m.register_callback(4, m.events.PY_START, start)
    m.set_events(4, m.events.PY_START)


def main():
    spec = json.loads(sys.argv[1])
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    real_stdout = os.dup(1)
    os.dup2(2, 1)
    setup_packages(spec.get("stub", True))
    h = importlib.import_module(spec["harness"])
    fn = getattr(h, spec["function"])
    t0 = time.time()
    if spec["mode"] == "sym":
        import psx
        api = API(True)
        api.np = psx.facade
        api.params = spec.get("params", {})
        eng = psx.Engine(spec.get("time", 100), spec.get("solver_ms", 10000), spec.get("max_fails", 3))
        monitor(eng.functions)
        eng.explore(fn, api)
        out = dict(failures=eng.failures, reached=eng.reached, incomplete=eng.incomplete, asserts=eng.asserts, functions=sorted(eng.functions), paths=eng.paths, forks=eng.forks,
                   queries=eng.queries, solver_s=eng.solver_s, steps=0, wall_s=time.time() - t0)
    else:
        api = API(False, spec["inputs"])
        api.np = np
        api.params = spec.get("params", {})
        try:
            fn(api)
            out = dict(status="ok", reached=api.reached)
        except AssumptionFailed:
            out = dict(status="assumption")
        except AssertionViolated as e:
            out = dict(status="assert", text="ASSERTION FAILED: " + str(e), msg=str(e))
        except Exception as e:  # noqa: BLE001
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            import pyexc
            inrepo = any(pyexc.in_repo(f.filename) for f in tb)
            out = dict(status="harness" if pyexc.gap(e) else "exception" if inrepo else "unreadable" if pyexc.unreadable(e, tb) else "harness", text=f"{type(e).__name__}: {e} @ {tb[-1].filename}:{tb[-1].lineno}")
    os.write(real_stdout, (json.dumps(out, default=str) + "\n").encode())
    os._exit(0)


if __name__ == "__main__":
    main()
