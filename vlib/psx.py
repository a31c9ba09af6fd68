"""Symbolic execution of Python code by re-execution over z3-backed values.

A harness runs once per path. Symbolic integers, reals and booleans record z3 terms; testing one for truth asks the solver which outcomes are feasible
and schedules the other one for a later run. Numpy arrays created by the code under test are `SArr`s: a byte-addressed storage of cells (so that views with
another item type alias the same memory) plus a real numpy array of cell positions, on which indexing and reshaping are delegated to numpy itself.
"""
import builtins
import sys
import signal
import time
import traceback

import pyexc
from fractions import Fraction

import numpy as _np
import z3

ctx = None  # the engine of the current process (None: plain values)


class Cut(BaseException):
    """ends the current path"""


class Infeasible(Cut):
    pass


class Hang(BaseException):
    """a path that goes on for long without asking the solver anything"""


HANG = 25.0


class Unsupported(Cut):
    pass


def is_sym(x):
    return isinstance(x, (SInt, SReal, SBool))


# ------------------------------------------------------------------------------------------------ engine
class Engine:
    def __init__(self, time_limit=100, solver_ms=10000, max_fails=3):
        self.deadline = time.time() + time_limit
        self.solver_ms, self.max_fails = solver_ms, max_fails
        self.work = [[]]
        self.paths = self.forks = self.queries = 0
        self.solver_s = 0.0
        self.failures, self.reached, self.incomplete, self.asserts = [], {}, {}, {}
        self.functions = set()
        self.seen_fail = set()

    def note(self, what):
        self.incomplete[what] = self.incomplete.get(what, 0) + 1

    def check(self, *extra):
        self.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        if time.time() > self.deadline:
            raise Unsupported("time limit")
        if r == z3.sat:
            self.mdl = self.solver.model()
        return r

    def may(self, c):
        """z3.sat, unsat or unknown: whether `c` can hold on the current path; the last model often tells"""
        if self.mdl is not None and z3.is_true(self.mdl.eval(c, model_completion=True)):
            return z3.sat
        return self.check(c)

    def add(self, c):
        self.solver.add(c)
        if self.mdl is not None and not z3.is_true(self.mdl.eval(c, model_completion=True)):
            self.mdl = None

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.add(c if d else z3.Not(c))
            return d
        key = c.get_id()
        a = self.may(c)
        if a == z3.unknown:
            self.note("solver gave no answer at a branch")
        if a == z3.unsat:
            d = False
        else:
            b = self.may(z3.Not(c))
            if b == z3.unknown:
                self.note("solver gave no answer at a branch")
            d = True
            if b != z3.unsat:
                self.work.append(self.trace + [False])
                self.forks += 1
        self.pos += 1
        self.prefix.append(d)
        self.trace.append(d)
        self.add(c if d else z3.Not(c))
        self.keep.append((key, c))
        return d

    def concretize(self, e, limit=200):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            n += 1
            if n > limit:
                raise Unsupported("too many values of an integer used as an index")
            if self.pos < len(self.prefix):
                v, d = self.prefix[self.pos]
                self.pos += 1
                self.trace.append((v, d))
                self.add(e == v if d else e != v)
                if d:
                    return v
                continue
            r = self.check()
            if r != z3.sat:
                if r == z3.unknown:
                    self.note("solver gave no answer for the values of an index")
                    raise Cut()
                raise Infeasible()
            v = self.solver.model().eval(e, model_completion=True).as_long()
            if self.check(e != v) != z3.unsat:
                self.work.append(self.trace + [(v, False)])
                self.forks += 1
            self.prefix.append((v, True))
            self.trace.append((v, True))
            self.pos += 1
            self.add(e == v)
            return v

    def model(self, m):
        out = {}
        for n, (k, e) in self.inputs.items():
            v = m.eval(e, model_completion=True)
            if k == "int":
                out[n] = v.as_long()
            elif k == "bool":
                out[n] = bool(z3.is_true(v))
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                f = v.as_fraction()
                out[n] = float(f)
        return out

    def fail(self, kind, msg, cond=None):
        """records a failure for the values that satisfy the path and `cond`"""
        if (kind, msg) in self.seen_fail:
            return
        s = self.solver
        s.push()
        if cond is not None:
            s.add(cond)
        r = self.check()
        if r == z3.sat:
            # prefer a model with simple reals that stays away from boundaries
            self.seen_fail.add((kind, msg))
            where = " < ".join(f"{f.filename.replace('/repo/', '')}:{f.lineno}" for f in traceback.extract_stack()[-6:-2][::-1])
            self.failures.append(dict(kind=kind, msg=msg, where=where, model=self.model(s.model())))
        else:
            self.note("no model for a failure")
        s.pop()

    def watch(self, *_):
        now = time.time()
        if self.queries != self.seen_q:
            self.seen_q, self.seen_t = self.queries, now
        elif now - self.seen_t > HANG:
            self.seen_t = now
            raise Hang

    def hang(self):
        """a candidate: only believed if the code does not return for these values either"""
        self.deadline = max(self.deadline, time.time() + 5)
        try:
            self.fail("hang", "the code does not return")
        except Unsupported:
            self.note("time limit")
        self.work = []

    def explore(self, harness, api):
        global ctx
        ctx = self
        self.seen_q, self.seen_t = 0, time.time()
        signal.signal(signal.SIGALRM, self.watch)
        signal.setitimer(signal.ITIMER_REAL, 2.0, 2.0)
        try:
            self._explore(harness, api)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        ctx = None

    def _explore(self, harness, api):
        while self.work:
            t0 = self.seen_t = time.time()
            if time.time() > self.deadline:
                self.note(f"time limit, {len(self.work)} prefixes left")
                break
            if len(self.failures) >= self.max_fails:
                self.note("stopped after failures")
                break
            self.prefix = self.work.pop()
            self.trace, self.pos, self.keep, self.inputs = [], 0, [], {}
            self.mdl, self.inrange = None, {}
            self.solver = z3.Solver()
            self.solver.set("timeout", self.solver_ms)
            self.names = {}
            self.ndef = 0
            try:
                harness(api)
                self.paths += 1
            except Infeasible:
                pass
            except Hang:
                self.paths += 1
                self.note("a path does not end")
                self.hang()
            except Unsupported as e:
                self.note("unsupported: " + str(e))
                self.paths += 1
                if time.time() > self.deadline and time.time() - t0 > HANG:
                    self.hang()
            except Cut:
                self.paths += 1
            except RecursionError:
                self.note("recursion limit")
            except Exception as e:  # noqa: BLE001
                self.paths += 1
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = [f for f in tb if pyexc.in_repo(f.filename)]
                last = tb[-1]
                msg = f"{type(e).__name__}: {e}"
                if pyexc.gap(e):
                    self.note("stand-in: " + msg[:300] + f" @ {last.filename}:{last.lineno}")
                    continue
                if isinstance(e, AssertionError) and inrepo:
                    self.fail("code-assert", f"assertion in the code fails: {last.line}"[:160])
                elif inrepo:
                    self.fail("exception", f"{type(e).__name__} in {inrepo[-1].name}"[:160])
                    if self.failures:
                        self.failures[-1].setdefault("detail", msg[:300] + " @ " + f"{last.filename}:{last.lineno}")
                elif pyexc.unreadable(e, tb):
                    at = [f for f in tb if "/pyh/" in f.filename][-1:] or [last]
                    self.fail("unreadable", f"the result cannot be read: {type(e).__name__}, {at[0].line}"[:160])
                else:
                    self.note("harness error " + msg[:300] + f" @ {last.filename}:{last.lineno}")


# ------------------------------------------------------------------------------------------------ values
def _int(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    return None


def _real(x):
    if isinstance(x, SReal):
        return x.e
    i = _int(x)
    if i is not None:
        return z3.ToReal(i)
    if isinstance(x, (float, _np.floating)):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("not a finite constant")
        return z3.RealVal(Fraction(float(x)))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    return None


def _bool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    return None


def mkint(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SInt(e)


def mkreal(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        g = float(f)
        if Fraction(g) == f:
            return g
    return SReal(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def _arith(fi, fr):
    def op(a, b):
        if isinstance(b, SArr) or isinstance(b, _np.ndarray):
            return NotImplemented
        ai, bi = _int(a), _int(b)
        if ai is not None and bi is not None and fi is not None:
            return mkint(fi(ai, bi))
        if isinstance(b, complex) or isinstance(b, SComplex):
            return NotImplemented
        ar, br = _real(a), _real(b)
        if ar is None or br is None:
            return NotImplemented
        return mkreal(fr(ar, br))
    return op, lambda a, b: op(_Const(b), a) if not is_sym(b) else op(b, a)


def _Const(b):
    return b


def _cmp(f):
    def op(a, b):
        if isinstance(b, (SArr, _np.ndarray)):
            return NotImplemented
        ai, bi = _int(a), _int(b)
        if ai is not None and bi is not None:
            return mkbool(f(ai, bi))
        ar, br = _real(a), _real(b)
        if ar is None or br is None:
            return NotImplemented
        return mkbool(f(ar, br))
    return op


def _floordiv(a, b):
    # Python's floor division; z3's integer division is Euclidean
    return z3.If(b > 0, a / b, (-a) / (-b)) if not (z3.is_int_value(b) and b.as_long() > 0) else a / b


def _mod(a, b):
    return a - b * _floordiv(a, b)


class _Num:
    __slots__ = ("e",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    __add__, __radd__ = _arith(lambda a, b: a + b, lambda a, b: a + b)
    __sub__, __rsub__ = _arith(lambda a, b: a - b, lambda a, b: a - b)
    __mul__, __rmul__ = _arith(lambda a, b: a * b, lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, b):
        r = _cmp(lambda a, c: a == c)(self, b)
        return False if r is NotImplemented and not isinstance(b, (SArr, _np.ndarray)) else r

    def __ne__(self, b):
        r = _cmp(lambda a, c: a != c)(self, b)
        return True if r is NotImplemented and not isinstance(b, (SArr, _np.ndarray)) else r

    def __hash__(self):
        return 0

    def _div(a, b):
        ar, br = _real(a), _real(b)
        if ar is None or br is None:
            return NotImplemented
        if not z3.is_rational_value(z3.simplify(br)):
            if ctx.decide(br == 0):
                raise ZeroDivisionError("division by zero")
        elif z3.simplify(br).as_fraction() == 0:
            raise ZeroDivisionError("division by zero")
        return mkreal(ar / br)

    def __truediv__(self, b):
        return NotImplemented if isinstance(b, (SArr, _np.ndarray)) else _Num._div(self, b)

    def __rtruediv__(self, b):
        return _Num._div(b, self)

    def __floordiv__(self, b):
        return _idiv(self, b, _floordiv)

    def __rfloordiv__(self, b):
        return _idiv(b, self, _floordiv)

    def __mod__(self, b):
        return _idiv(self, b, _mod)

    def __rmod__(self, b):
        return _idiv(b, self, _mod)

    def __divmod__(self, b):
        return self // b, self % b

    def __neg__(self):
        return type(self)(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e < 0, -self.e, self.e))

    def __pow__(self, n):
        if not isinstance(n, (int, _np.integer)) or n < 0 or n > 8:
            raise Unsupported("power")
        r = 1
        for _ in range(int(n)):
            r = self * r
        return r

    def __bool__(self):
        return ctx.decide(self.e != 0)

    # numpy scalar look-alikes
    ndim, shape, size = 0, (), 1

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def T(self):
        return self


def _idiv(a, b, f):
    if isinstance(b, (SArr, _np.ndarray)):
        return NotImplemented
    ai, bi = _int(a), _int(b)
    if ai is None or bi is None:
        ar, br = _real(a), _real(b)
        if ar is None or br is None:
            return NotImplemented
        q = z3.ToReal(z3.ToInt(ar / br))
        return mkreal(q if f is _floordiv else ar - br * q)
    if not z3.is_int_value(bi):
        if ctx.decide(bi == 0):
            raise ZeroDivisionError("integer division by zero")
    elif bi.as_long() == 0:
        raise ZeroDivisionError("integer division by zero")
    return mkint(f(ai, bi))


class SInt(_Num):
    __slots__ = ()

    def __index__(self):
        return ctx.concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return f"SInt({self.e})"

    def astype(self, t):
        return _cast(self, _np.dtype(t))

    @property
    def dtype(self):
        return _np.dtype(_np.int64)

    def _bit(self, b):
        return self.__index__(), builtins.int(b)

    def __and__(self, b):
        if isinstance(b, (int, _np.integer)) and not isinstance(b, bool) and b >= 0 and (b + 1) & b == 0:
            return self % (builtins.int(b) + 1)
        x, y = self._bit(b)
        return x & y

    def __xor__(self, b):
        x, y = self._bit(b)
        return x ^ y

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    __rand__ = __and__

    def __or__(self, b):
        x, y = self._bit(b)
        return x | y

    __ror__ = __or__

    def __lshift__(self, b):
        if not is_sym(b):
            return self * 2 ** builtins.int(b)
        x, y = self._bit(b)
        return x << y

    def __rshift__(self, b):
        if not is_sym(b):
            return self // 2 ** builtins.int(b)
        x, y = self._bit(b)
        return x >> y


class SReal(_Num):
    __slots__ = ()

    def __repr__(self):
        return f"SReal({self.e})"

    def __float__(self):
        raise Unsupported("symbolic real used as a float")

    def __int__(self):
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))).__index__()

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.e))

    @property
    def dtype(self):
        return _np.dtype(_np.float64)

    @property
    def real(self):
        return self

    def astype(self, t):
        return _cast(self, _np.dtype(t))


class SBool:
    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx.decide(self.e)

    def __index__(self):
        return 1 if ctx.decide(self.e) else 0

    __int__ = __index__

    def _b(f):
        def op(a, b):
            if isinstance(b, (SArr, _np.ndarray)):
                return NotImplemented
            y = _bool(b)
            return NotImplemented if y is None else mkbool(f(a.e, y))
        return op

    __and__ = __rand__ = _b(lambda a, b: z3.And(a, b))
    __or__ = __ror__ = _b(lambda a, b: z3.Or(a, b))
    __xor__ = __rxor__ = _b(lambda a, b: z3.Xor(a, b))

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        y = _bool(o)
        if y is None:
            i = _int(o)
            return False if i is None else mkbool(_int(self) == i)
        return mkbool(self.e == y)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return 0

    def __add__(self, o):
        return SInt(_int(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SInt(_int(self)) * o

    __rmul__ = __mul__
    ndim, shape, size = 0, (), 1

    @property
    def dtype(self):
        return _np.dtype(_np.bool_)

    def __repr__(self):
        return f"SBool({self.e})"


class SComplex:
    """a complex number whose parts are symbolic, or bits that are not numbers"""
    __slots__ = ("real", "imag")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.real, self.imag = re, im

    def __eq__(self, o):
        if isinstance(o, (SComplex, complex, _np.complexfloating)):
            return s_and(s_eq(self.real, o.real), s_eq(self.imag, o.imag))
        return s_and(s_eq(self.real, o), s_eq(self.imag, 0.0))

    def __hash__(self):
        return 0

    def __repr__(self):
        return f"SComplex({self.real},{self.imag})"


class Bits:
    """the bytes [k, k+n) of `value` stored with item type `dt`, read as something else"""
    __slots__ = ("value", "dt", "k", "n")
    __array_ufunc__ = None

    def __init__(self, value, dt, k, n):
        self.value, self.dt, self.k, self.n = value, dt, k, n

    def __eq__(self, o):
        if isinstance(o, Bits):
            return s_and(self.dt == o.dt and self.k == o.k and self.n == o.n, s_eq(self.value, o.value))
        raise Unsupported("bits of a value compared with a number")

    def __hash__(self):
        return 0

    def __bool__(self):
        raise Unsupported("bits of a value used as a condition")

    def __repr__(self):
        return f"Bits({self.value},{self.dt},{self.k},{self.n})"


class SRow(tuple):
    """element of a structured array: ordered and compared field by field"""
    def __lt__(self, o):
        for a, b in zip(self, o):
            if bool(a == b):
                continue
            return bool(a < b)
        return False

    def __eq__(self, o):
        return isinstance(o, tuple) and len(self) == len(o) and all(bool(a == b) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0

    def __gt__(self, o):
        return o < self

    def __le__(self, o):
        return not o < self

    def __ge__(self, o):
        return not self < o


def s_eq(a, b):
    r = a == b
    if r is NotImplemented:
        r = b == a
    return r


def s_and(*xs):
    xs = [x for x in xs if not (isinstance(x, (bool, _np.bool_)) and x)]
    if any(isinstance(x, (bool, _np.bool_)) for x in xs):
        return False
    return mkbool(z3.And([x.e for x in xs])) if xs else True


def s_or(*xs):
    xs = [x for x in xs if not (isinstance(x, (bool, _np.bool_)) and not x)]
    if any(isinstance(x, (bool, _np.bool_)) for x in xs):
        return True
    return mkbool(z3.Or([x.e for x in xs])) if xs else False


def s_not(x):
    return ~x if isinstance(x, SBool) else not x


def s_ite(c, a, b):
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SBool, bool, _np.bool_)) and isinstance(b, (SBool, bool, _np.bool_)):
        return mkbool(z3.If(c.e, _bool(a), _bool(b)))
    ai, bi = _int(a), _int(b)
    if ai is not None and bi is not None:
        return mkint(z3.If(c.e, ai, bi))
    ar, br = _real(a), _real(b)
    if ar is not None and br is not None:
        return mkreal(z3.If(c.e, ar, br))
    return a if ctx.decide(c.e) else b


def _wrap(v, dt):
    """value after conversion to a fixed-width integer"""
    bits = dt.itemsize * 8
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if dt.kind == "i" else (0, (1 << bits) - 1)
    if isinstance(v, SInt):
        if bits == 64:
            return v  # 64-bit overflow is outside the bounds of every harness
        k = (v.e.get_id(), lo, hi)
        if k in ctx.inrange:
            return v
        if ctx.may(z3.Or(v.e < lo, v.e > hi)) == z3.unsat:
            ctx.inrange[k] = v.e
            return v
        return mkint((v.e - lo) % (1 << bits) + lo)
    return v


def _cast(v, dt):
    """value `v` stored in an item of type `dt`"""
    if isinstance(v, Bits) or v is None or dt.kind == "O":
        return v
    k = dt.kind
    if k in "iu":
        if isinstance(v, SBool):
            return mkint(_int(v))
        if isinstance(v, SReal):
            v = mkint(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
        if isinstance(v, SInt):
            return _wrap(v, dt)
        return dt.type(v) if not isinstance(v, (float, _np.floating)) else _np.asarray(v).astype(dt)[()]
    if k == "f":
        if isinstance(v, (SInt, SBool)):
            return mkreal(_real(v))
        if isinstance(v, SReal):
            return v
        if isinstance(v, SComplex):
            return _cast(v.real, dt)
        if isinstance(v, complex):
            return dt.type(v.real)
        return dt.type(v)
    if k == "c":
        if isinstance(v, (SInt, SBool, SReal)):
            return SComplex(mkreal(_real(v)), 0.0)
        if isinstance(v, SComplex):
            return v
        return dt.type(v)
    if k == "b":
        if isinstance(v, (SInt, SReal)):
            return mkbool(v.e != 0)
        if isinstance(v, SBool):
            return v
        return _np.bool_(v)
    if k == "V" and dt.names:
        return SRow(_cast(x, dt[i]) for i, x in enumerate(v))
    raise Unsupported(f"item type {dt}")


# ------------------------------------------------------------------------------------------------ arrays
class Store:
    """byte-addressed memory: position of the first byte -> (value, item type)"""
    __slots__ = ("cells", "one")

    def __init__(self):
        self.cells = {}
        self.one = None  # size of the items, if all have the same one and are aligned to it; 0: mixed

    def read(self, p, dt):
        if dt.kind == "V" and dt.names:
            return SRow(self.read(p + dt.fields[n][1], dt.fields[n][0]) for n in dt.names)
        if dt.kind == "c":
            h = _np.dtype(_np.float32 if dt.itemsize == 8 else _np.float64)
            a, b = self.read(p, h), self.read(p + h.itemsize, h)
            if isinstance(a, (float, _np.floating)) and isinstance(b, (float, _np.floating)):
                return dt.type(complex(a, b))
            return SComplex(a, b)
        c = self.cells.get(p)
        if c is not None and c[1].itemsize == dt.itemsize:
            v, t = c
            if t.kind == dt.kind or (t.kind in "iu" and dt.kind in "iu"):
                return v
            if isinstance(v, Bits):
                return v.value if v.dt == dt and v.k == 0 and v.n == dt.itemsize else v
            if not is_sym(v):
                return _np.asarray(v, dtype=t).reshape(1).view(dt)[0]
            return Bits(v, t, 0, t.itemsize)
        # larger or smaller items
        parts, q = [], p
        while q < p + dt.itemsize:
            got = None
            for s in (8, 4, 2, 1):
                for b in range(q - s + 1, q + 1):
                    c = self.cells.get(b)
                    if c is not None and c[1].itemsize == s and b + s > q:
                        got = (b, c)
            if got is None:
                raise Unsupported("read of memory that was never written")
            b, (v, t) = got
            n = min(b + t.itemsize, p + dt.itemsize) - q
            k = q - b
            if isinstance(v, Bits):
                parts.append((v.value, v.dt, v.k + k, n))
            else:
                parts.append((v, t, k, n))
            q += n
        # merge
        m = [parts[0]]
        for x in parts[1:]:
            y = m[-1]
            if y[0] is x[0] and y[1] == x[1] and y[2] + y[3] == x[2]:
                m[-1] = (y[0], y[1], y[2], y[3] + x[3])
            else:
                m.append(x)
        if len(m) == 1:
            v, t, k, n = m[0]
            if k == 0 and n == t.itemsize and t.kind == dt.kind:
                return v
            if not is_sym(v):
                by = _np.asarray(v, dtype=t).reshape(1).tobytes()[k:k + n]
                return _np.frombuffer(by, dtype=dt)[0]
            return Bits(v, t, k, n)
        if not any(is_sym(x[0]) for x in m):
            by = b"".join(_np.asarray(x[0], dtype=x[1]).reshape(1).tobytes()[x[2]:x[2] + x[3]] for x in m)
            return _np.frombuffer(by, dtype=dt)[0]
        return Bits(tuple(id(x[0]) for x in m), dt, 0, dt.itemsize)

    def write(self, p, dt, v):
        if dt.kind == "V" and dt.names:
            for i, n in enumerate(dt.names):
                self.write(p + dt.fields[n][1], dt.fields[n][0], v[i])
            return
        if dt.kind == "c":
            h = _np.dtype(_np.float32 if dt.itemsize == 8 else _np.float64)
            v = _cast(v, dt)
            self.write(p, h, v.real)
            self.write(p + h.itemsize, h, v.imag)
            return
        v = _cast(v, dt)
        n = dt.itemsize
        if p % n == 0 and self.one in (None, n):
            self.one = n
            self.cells[p] = (v, dt)
            return
        self.one = 0
        c = self.cells.get(p)
        if c is None or c[1].itemsize != dt.itemsize:
            for s in (16, 8, 4, 2, 1):
                for b in range(p - s + 1, p + dt.itemsize):
                    c = self.cells.get(b)
                    if c is not None and c[1].itemsize == s and b + s > p and not (b == p and s == dt.itemsize):
                        if b >= p and b + s <= p + dt.itemsize:
                            del self.cells[b]
                        else:
                            self._split(b, c)
                            for b2 in range(p, p + dt.itemsize):
                                self.cells.pop(b2, None)
        self.cells[p] = (v, dt)

    def _split(self, b, c):
        v, t = c
        del self.cells[b]
        h = _np.dtype({16: "V8", 8: _np.float32, 4: _np.int16, 2: _np.int8}[t.itemsize])
        for k in (0, h.itemsize):
            if isinstance(v, Bits):
                self.cells[b + k] = (Bits(v.value, v.dt, v.k + k, h.itemsize), h)
            elif is_sym(v):
                self.cells[b + k] = (Bits(v, t, k, h.itemsize), h)
            else:
                by = _np.asarray(v, dtype=t).reshape(1).tobytes()[k:k + h.itemsize]
                self.cells[b + k] = (_np.frombuffer(by, dtype=h)[0], h)


def _concrete(v):
    if isinstance(v, SRow):
        return all(_concrete(x) for x in v)
    return not isinstance(v, (SInt, SReal, SBool, SComplex, Bits))


class SArr:
    __array_priority__ = 2000
    __slots__ = ("st", "pos", "dt", "flags_")

    def __init__(self, st, pos, dt):
        self.st, self.pos, self.dt = st, pos, dt

    # -- construction
    @staticmethod
    def new(shape, dt, fill=None):
        dt = _np.dtype(dt)
        if isinstance(shape, (int, _np.integer, SInt)):
            shape = (shape,)
        shape = tuple(builtins.int(s) for s in shape)
        n = 1
        for s in shape:
            if s < 0:
                raise ValueError("negative dimensions are not allowed")
            n *= s
        pos = (_np.arange(n, dtype=_np.int64) * dt.itemsize).reshape(shape)
        a = SArr(Store(), pos, dt)
        if fill is not None:
            for p in pos.ravel():
                a.st.write(int(p), dt, fill)
        return a

    @staticmethod
    def of(obj, dt=None):
        """array from anything (copies)"""
        if isinstance(obj, SArr):
            vals, shape, t = obj.values(), obj.shape, obj.dt
        elif isinstance(obj, _np.ndarray) and obj.dtype != object:
            t, shape = obj.dtype, obj.shape
            if dt is not None and _np.dtype(dt) != t:
                obj = obj.astype(_np.dtype(dt))
                t = obj.dtype
            vals = list(obj.ravel()) if not t.names else [SRow(x) for x in obj.ravel()]
        else:
            o = _to_obj(obj)
            vals, shape = list(o.ravel()), o.shape
            t = _infer(vals)
        dt = t if dt is None else _np.dtype(dt)
        a = SArr.new(shape, dt)
        for p, v in zip(a.pos.ravel(), vals):
            a.st.write(int(p), dt, v)
        return a

    # -- basic attributes
    @property
    def dtype(self):
        return self.dt

    @property
    def shape(self):
        return self.pos.shape

    @property
    def ndim(self):
        return self.pos.ndim

    @property
    def size(self):
        return self.pos.size

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def flags(self):
        return self.pos.flags

    @property
    def T(self):
        return SArr(self.st, self.pos.T, self.dt)

    @property
    def flat(self):
        return iter(self.values())

    @property
    def real(self):
        if self.dt.kind != "c":
            return self
        return SArr(self.st, self.pos, _np.dtype(_np.float32 if self.dt.itemsize == 8 else _np.float64))

    def __len__(self):
        return len(self.pos)

    def get(self, p):
        return self.st.read(int(p), self.dt)

    def values(self):
        return [self.get(p) for p in self.pos.ravel()]

    def concrete(self):
        return all(_concrete(v) for v in self.values())

    def nparray(self):
        """plain numpy array (all items must be concrete)"""
        v = self.values()
        if self.dt.names:
            return _np.array([tuple(x) for x in v], dtype=self.dt).reshape(self.shape)
        return _np.array(v, dtype=self.dt).reshape(self.shape)

    def obj(self):
        """object array of the items"""
        o = _np.empty(self.size, dtype=object)
        for i, v in enumerate(self.values()):
            o[i] = _pyval(v)
        return o.reshape(self.shape)

    def best(self):
        return self.nparray() if self.concrete() else self.obj()

    def __array__(self, dtype=None, copy=None):
        vals = [_force(v) for v in self.values()]
        if self.dt.names:
            r = _np.array([tuple(x) for x in vals], dtype=self.dt).reshape(self.shape)
        else:
            r = _np.array(vals, dtype=self.dt).reshape(self.shape)
        return r if dtype is None else r.astype(dtype)

    # -- indexing
    def _key(self, key):
        """key -> plain numpy key (concretizes), plus whether it copies"""
        if not isinstance(key, tuple):
            key = (key,)
        out, adv = [], False
        for k in key:
            if isinstance(k, SArr):
                adv = True
                if k.dt.kind == "b":
                    k = _np.array([bool(x) for x in k.values()], dtype=bool).reshape(k.shape)
                else:
                    k = _np.array([builtins.int(x) for x in k.values()], dtype=_np.int64).reshape(k.shape)
            elif isinstance(k, _np.ndarray) and k.ndim:
                adv = True
                if k.dtype == object:
                    k = _np.array([_force(x) for x in k.ravel()]).reshape(k.shape)
            elif isinstance(k, list):
                adv = True
                k = [_force(x) for x in k]
                k = _np.array(k, dtype=_np.int64) if not k else k
            elif isinstance(k, slice):
                k = slice(*[None if x is None else builtins.int(x) for x in (k.start, k.stop, k.step)])
            elif isinstance(k, SInt):
                k = builtins.int(k)
            elif isinstance(k, SBool):
                adv = True
                k = bool(k)
            out.append(k)
        return tuple(out), adv

    def __getitem__(self, key):
        if isinstance(key, str):
            t, off = self.dt.fields[key]
            return SArr(self.st, self.pos + off, t)
        if isinstance(key, list) and key and all(isinstance(k, str) for k in key):
            raise Unsupported("several fields")
        # symbolic positions of a small one-dimensional table: select by case distinction
        if self.ndim == 1 and self.dt.kind in "iuf" and 0 < self.size <= 64:
            if isinstance(key, SInt):
                return self._select(key)
            if isinstance(key, SArr) and key.dt.kind in "iu" and not key.concrete():
                o = _np.empty(key.size, dtype=object)
                for i, k in enumerate(key.values()):
                    o[i] = self._select(k)
                return SArr.of(o.reshape(key.shape), self.dt)
        k, adv = self._key(key)
        pos = self.pos[k]
        if not isinstance(pos, _np.ndarray):
            return self.get(pos)
        r = SArr(self.st, pos, self.dt)
        return r.copy() if adv else r

    def _select(self, k):
        n = self.size
        if not isinstance(k, SInt):
            return self.get(self.pos[builtins.int(k)])
        if ctx.decide(z3.Or(k.e < -n, k.e >= n)):
            raise IndexError("index out of bounds")
        vals = self.values()
        if not all(isinstance(v, (SInt, SReal, _np.integer, _np.floating, int, float)) for v in vals):
            return vals[builtins.int(k)]
        r = vals[-1]
        for i in range(n - 2, -1, -1):
            r = s_ite(mkbool(z3.Or(k.e == i, k.e == i - n)), vals[i], r)
        return r

    def __setitem__(self, key, val):
        if isinstance(key, str):
            t, off = self.dt.fields[key]
            SArr(self.st, self.pos + off, t)[...] = val
            return
        k, _ = self._key(key)
        pos = self.pos[k]
        if isinstance(pos, _np.ndarray):
            if isinstance(val, SArr):
                v = val.obj_raw()
            elif isinstance(val, _np.ndarray):
                v = val
            elif isinstance(val, (list, tuple)) and not (self.dt.names and isinstance(val, tuple)):
                v = _to_obj(val)
            else:
                v = _np.empty((), dtype=object)
                v[()] = val
            v = _np.broadcast_to(v, pos.shape) if v.shape != pos.shape and not (v.size == pos.size and v.ndim > pos.ndim) else v.reshape(pos.shape)
            for p, x in zip(pos.ravel(), v.ravel()):
                self.st.write(int(p), self.dt, x)
        else:
            if isinstance(val, SArr):
                val = val.values()[0]
            elif isinstance(val, _np.ndarray):
                val = val.ravel()[0]
            self.st.write(int(pos), self.dt, val)

    def obj_raw(self):
        o = _np.empty(self.size, dtype=object)
        for i, v in enumerate(self.values()):
            o[i] = v
        return o.reshape(self.shape)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __contains__(self, x):
        return any(bool(v == x) for v in self.values())

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self.values()[0])

    def __index__(self):
        if self.size != 1 or self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return builtins.int(self.values()[0])

    def __int__(self):
        return builtins.int(self.values()[0])

    def __float__(self):
        return float(self.values()[0])

    def item(self, *a):
        return self[a if len(a) > 1 else a[0]] if a else self.values()[0]

    # -- shape
    def _reshaped(self, pos):
        return SArr(self.st, pos, self.dt) if self.size == 0 or _np.shares_memory(pos, self.pos) else SArr(self.st, pos, self.dt).copy()

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return self._reshaped(self.pos.reshape(tuple(builtins.int(s) for s in shape), **kw))

    def ravel(self, *a, **kw):
        return self._reshaped(self.pos.ravel(*a, **kw))

    def flatten(self, *a, **kw):
        return SArr(self.st, self.pos.flatten(*a, **kw), self.dt).copy()

    def transpose(self, *a):
        return SArr(self.st, self.pos.transpose(*a), self.dt)

    def swapaxes(self, a, b):
        return SArr(self.st, self.pos.swapaxes(a, b), self.dt)

    def squeeze(self, *a, **kw):
        return SArr(self.st, self.pos.squeeze(*a, **kw), self.dt)

    def copy(self, *a, **kw):
        n = SArr.new(self.shape, self.dt)
        for p, q in zip(n.pos.ravel(), self.pos.ravel()):
            self._copycell(n.st, int(p), int(q))
        return n

    def _copycell(self, st, p, q):
        try:
            v = self.get(q)
        except Unsupported:
            return  # never written: stays undefined
        st.write(p, self.dt, v)

    def astype(self, t, **kw):
        if t is builtins.int or t is SIntType:
            t = _np.int64
        t = _np.dtype(t)
        if self.concrete() and not self.dt.names:
            return SArr.of(self.nparray().astype(t))
        n = SArr.new(self.shape, t)
        for p, v in zip(n.pos.ravel(), self.values()):
            n.st.write(int(p), t, _cast(v, t) if self.dt.kind != "c" or t.kind == "c" else _cast(v.real, t))
        return n

    def view(self, t=None, *a, dtype=None):
        t = dtype if t is None else t
        if t is None:
            return SArr(self.st, self.pos, self.dt)
        t = _np.dtype(t)
        s, n = self.dt.itemsize, t.itemsize
        if s == n:
            return SArr(self.st, self.pos, t)
        if self.ndim == 0:
            raise ValueError("Changing the dtype of a 0d array is only supported if the itemsize is unchanged")
        if self.size and self.shape[-1] > 1 and self.pos.strides[-1] != self.pos.itemsize:
            raise ValueError("To change to a dtype of a different size, the last axis must be contiguous")
        if s > n:
            if s % n:
                raise ValueError("When changing to a smaller dtype, its size must be a divisor of the size of original dtype")
            r = s // n
            pos = (self.pos[..., None] + _np.arange(r, dtype=_np.int64) * n).reshape(self.shape[:-1] + (self.shape[-1] * r,))
        else:
            if n % s or (self.shape[-1] * s) % n:
                raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
            r = n // s
            g = self.pos.reshape(self.shape[:-1] + (self.shape[-1] // r, r))
            if g.size and not _np.array_equal(g, g[..., :1] + _np.arange(r) * s):
                raise Unsupported("view over memory that is not contiguous")
            pos = _np.ascontiguousarray(g[..., 0])
        return SArr(self.st, pos, t)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return self.obj().tolist() if not self.concrete() else self.nparray().tolist()

    def tobytes(self):
        return self.nparray().tobytes()

    def sort(self, *a, **kw):
        o = self.best()
        o.sort(*a, **kw)
        self[...] = SArr.of(o, self.dt)

    def put(self, i, v, *a):
        self.ravel()[i] = v

    def resize(self, *a, **k):
        raise Unsupported("resize")

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __matmul__(self, o):
        return _dot(self, o)

    def __rmatmul__(self, o):
        return _dot(o, self)

    def __repr__(self):
        return f"SArr({self.values()}, shape={self.shape}, {self.dt})"

    # -- numpy protocol
    def __array_ufunc__(self, uf, method, *args, **kw):
        out = kw.pop("out", None)
        if method == "at":
            a, idx = args[0], args[1]
            idx, _ = a._key(idx)
            if len(idx) != 1:
                raise Unsupported("ufunc.at")
            for n, i in enumerate(_np.atleast_1d(idx[0])):
                x = args[2]
                x = x if not isinstance(x, (SArr, _np.ndarray)) or x.ndim == 0 else x[n]
                a[int(i)] = PYOP[uf](a[int(i)], x) if is_sym(x) or is_sym(a[int(i)]) else uf(a[int(i)], x)
            return None
        kw.pop("dtype", None) if kw.get("dtype", 0) is None else None
        dt = kw.pop("dtype", None)
        if all(not isinstance(a, SArr) or a.concrete() for a in args) and not any(is_sym(a) for a in args):
            r = getattr(uf, method)(*[a.nparray() if isinstance(a, SArr) else a for a in args], **dict(kw, **({"dtype": dt} if dt is not None else {})))
            r = SArr.of(r) if isinstance(r, _np.ndarray) else r
        else:
            kw.pop("casting", None)
            r = _sym_ufunc(uf, method, args, dt, kw)
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            out[...] = r
            return out
        return r

    def __array_function__(self, func, types, args, kw):
        f = OVERRIDE.get(func)
        if f is not None:
            return f(*args, **kw)
        return generic(func, args, kw)


def _binop(uf, swap=False):
    def op(a, b):
        return uf(b, a) if swap else uf(a, b)
    return op


for _n, _u in dict(add=_np.add, sub=_np.subtract, mul=_np.multiply, truediv=_np.true_divide, floordiv=_np.floor_divide, mod=_np.remainder, pow=_np.power,
                   **{"and": _np.bitwise_and, "or": _np.bitwise_or, "xor": _np.bitwise_xor, "lshift": _np.left_shift, "rshift": _np.right_shift}).items():
    def _mk(u):
        def f(a, b):
            return a.__array_ufunc__(u, "__call__", a, b)

        def r(a, b):
            return a.__array_ufunc__(u, "__call__", b, a)

        def i(a, b):
            a[...] = _inplace(u, a, b)
            return a
        return f, r, i
    _f, _r, _i = _mk(_u)
    setattr(SArr, f"__{_n}__", _f)
    setattr(SArr, f"__r{_n}__", _r)
    setattr(SArr, f"__i{_n}__", _i)
for _n, _u in dict(lt=_np.less, le=_np.less_equal, gt=_np.greater, ge=_np.greater_equal, eq=_np.equal, ne=_np.not_equal).items():
    def _mk(u):
        return lambda a, b: a.__array_ufunc__(u, "__call__", a, b)
    setattr(SArr, f"__{_n}__", _mk(_u))
SArr.__neg__ = lambda a: a.__array_ufunc__(_np.negative, "__call__", a)
SArr.__invert__ = lambda a: a.__array_ufunc__(_np.invert, "__call__", a)
SArr.__abs__ = lambda a: a.__array_ufunc__(_np.absolute, "__call__", a)
SArr.__hash__ = None
SArr.__matmul__ = lambda a, b: generic(_np.matmul, (a, b), {})
SArr.__rmatmul__ = lambda a, b: generic(_np.matmul, (b, a), {})


def _inplace(u, a, b):
    # numpy refuses lossy casts of in-place operations
    bt = b.dt if isinstance(b, SArr) else b.dtype if isinstance(b, _np.ndarray) else None
    if bt is not None and bt != object:
        rt = _np.result_type(a.dt, bt)
        if u is _np.true_divide and a.dt.kind in "iu" or not _np.can_cast(rt, a.dt, "same_kind"):
            raise TypeError(f"Cannot cast ufunc '{u.__name__}' output from {rt} to {a.dt}")
    return a.__array_ufunc__(u, "__call__", a, b)


for _m in ("sum", "prod", "max", "min", "all", "any", "cumsum", "cumprod", "argsort", "argmax", "argmin", "mean", "dot", "repeat", "nonzero", "take", "round", "diagonal", "searchsorted", "clip"):
    def _mk(m):
        fn = getattr(_np, m)
        return lambda self, *a, **k: dispatch(fn)(self, *a, **k)
    setattr(SArr, _m, _mk(_m))


def _pyval(v):
    """item as seen by object-array code"""
    return v


def _force(v):
    if isinstance(v, SInt):
        return builtins.int(v)
    if isinstance(v, SBool):
        return bool(v)
    if isinstance(v, SRow):
        return SRow(_force(x) for x in v)
    if isinstance(v, SReal):
        raise Unsupported("symbolic real converted to a plain array")
    if isinstance(v, Bits):
        raise Unsupported("bits of a symbolic value converted to a plain array")
    return v


def _to_obj(x):
    """nested lists / arrays of anything -> object array"""
    if isinstance(x, SArr):
        return x.obj_raw()
    if isinstance(x, _np.ndarray):
        return x
    if isinstance(x, (list, tuple, range)) and not isinstance(x, SRow):
        parts = [_to_obj(y) for y in x]
        if not parts:
            return _np.empty(0, dtype=_np.float64)
        if not all(p.shape == parts[0].shape for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        if all(p.ndim for p in parts) and all(p.dtype != object for p in parts):
            return _np.stack(parts)
        o = _np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            if p.ndim:
                o[i] = p
            else:
                o[i] = p[()]
        return o
    if hasattr(x, "__iter__") and not isinstance(x, (str, bytes, tuple)) and not is_sym(x):
        return _to_obj(list(x))
    o = _np.empty((), dtype=object)
    o[()] = x
    return o


def _infer(vals):
    t = None
    for v in vals:
        k = (_np.dtype(_np.int64) if isinstance(v, (SInt,)) or type(v) is int else _np.dtype(_np.bool_) if isinstance(v, (SBool, bool)) else
             _np.dtype(_np.float64) if isinstance(v, (SReal, float)) and not isinstance(v, _np.floating) else _np.dtype(_np.complex128) if isinstance(v, (SComplex, complex)) and not isinstance(v, _np.complexfloating)
             else v.dtype if isinstance(v, _np.generic) else _np.dtype(object))
        if isinstance(v, Bits):
            k = _np.dtype(_np.float64)
        t = k if t is None else (_np.result_type(t, k) if t != object and k != object else _np.dtype(object))
    return t if t is not None else _np.dtype(_np.float64)


CMP = {_np.less, _np.less_equal, _np.greater, _np.greater_equal, _np.equal, _np.not_equal, _np.logical_and, _np.logical_or, _np.logical_not, _np.logical_xor, _np.isfinite, _np.isnan}


def _dt_of(a):
    if isinstance(a, SArr):
        return a.dt
    if isinstance(a, (_np.ndarray, _np.generic)):
        return a.dtype
    if isinstance(a, SInt):
        return 0
    if isinstance(a, SReal):
        return 0.0
    if isinstance(a, SBool):
        return False
    if isinstance(a, (list, tuple)):
        return SArr.of(a).dt
    return a


def _result(uf, args):
    ts = [_dt_of(a) for a in args]
    if any(isinstance(t, _np.dtype) and t == object for t in ts):
        return None
    if uf in CMP:
        return _np.dtype(_np.bool_)
    if all(isinstance(t, _np.dtype) or isinstance(t, (int, float, complex, bool)) for t in ts):
        try:
            t = _np.result_type(*ts)
        except TypeError:
            return None
        if uf in (_np.true_divide, _np.sqrt, _np.ceil, _np.floor) and t.kind in "iub":
            t = _np.dtype(_np.float64)
        return t
    return None


OBJ = {
    _np.logical_not: lambda a: s_not(_cast(a, _np.dtype(bool))),
    _np.logical_and: lambda a, b: s_and(_cast(a, _np.dtype(bool)), _cast(b, _np.dtype(bool))),
    _np.logical_or: lambda a, b: s_or(_cast(a, _np.dtype(bool)), _cast(b, _np.dtype(bool))),
    _np.invert: lambda a: s_not(a) if isinstance(a, (SBool, bool, _np.bool_)) else -a - 1,
    _np.equal: lambda a, b: s_eq(a, b),
    _np.not_equal: lambda a, b: s_not(s_eq(a, b)),
    _np.minimum: lambda a, b: s_ite(a < b, a, b),
    _np.maximum: lambda a, b: s_ite(a > b, a, b),
    _np.ceil: lambda a: mkreal(-z3.ToReal(z3.ToInt(-_real(a)))),
    _np.floor: lambda a: mkreal(z3.ToReal(z3.ToInt(_real(a)))),
    _np.isfinite: lambda a: True,
    _np.isnan: lambda a: False,
    _np.true_divide: lambda a, b: _Num._div(a, b),
}


def _sym_ufunc(uf, method, args, dt, kw):
    rt = _np.dtype(dt) if dt is not None else _result(uf, args)
    objs = [_to_obj(a) for a in args]
    if method == "__call__":
        fn = OBJ.get(uf)
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("where=")
        b = _np.broadcast_arrays(*objs, subok=False) if len(objs) > 1 else objs
        o = _np.empty(b[0].shape, dtype=object)
        fo, ins = o.reshape(-1), [x.ravel() for x in b]
        for i in range(fo.size):
            a = [x[i] for x in ins]
            if fn is not None and (any(not _concrete(y) for y in a)):
                fo[i] = fn(*a)
            else:
                fo[i] = uf(*a) if not any(not _concrete(y) for y in a) else PYOP[uf](*a) if uf in PYOP else uf(*[_np.array(y, dtype=object) for y in a])
        o = fo.reshape(o.shape)
        if o.ndim == 0:
            return _cast(o[()], rt) if rt is not None else o[()]
        return SArr.of(o, rt)
    a = objs[0]
    if method in ("reduce", "accumulate"):
        r = getattr(uf, method)(a.astype(object), *args[1:], **kw)
        t = dt if dt is not None else (args[0].dt if isinstance(args[0], SArr) else None)
        if t is not None and dt is None and t.kind in "bi" and t.itemsize < 8 and uf in (_np.add, _np.multiply):
            t = _np.dtype(_np.int64)
        if uf in CMP:
            t = _np.dtype(bool)
        if isinstance(r, _np.ndarray):
            return SArr.of(r, t)
        return _cast(r, _np.dtype(t)) if t is not None else r
    raise Unsupported(f"{uf.__name__}.{method}")


import operator as _o  # noqa: E402

PYOP = {_np.add: _o.add, _np.subtract: _o.sub, _np.multiply: _o.mul, _np.floor_divide: _o.floordiv, _np.remainder: _o.mod, _np.negative: _o.neg, _np.absolute: abs,
        _np.less: _o.lt, _np.less_equal: _o.le, _np.greater: _o.gt, _np.greater_equal: _o.ge, _np.power: _o.pow, _np.bitwise_and: _o.and_, _np.bitwise_or: _o.or_,
        _np.bitwise_xor: _o.xor, _np.left_shift: _o.lshift, _np.right_shift: _o.rshift, _np.square: lambda a: a * a, _np.positive: lambda a: a}


# ------------------------------------------------------------------------------------------------ functions
def _walk(x, f):
    if isinstance(x, SArr):
        return f(x)
    if isinstance(x, tuple) and not isinstance(x, SRow):
        return tuple(_walk(y, f) for y in x)
    if isinstance(x, list):
        return [_walk(y, f) for y in x]
    if isinstance(x, dict):
        return {k: _walk(v, f) for k, v in x.items()}
    return x


def _any_sym(x):
    if isinstance(x, SArr):
        return not x.concrete()
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_any_sym(y) for y in x)
    if isinstance(x, dict):
        return any(_any_sym(y) for y in x.values())
    return False


def _dts(x, out):
    if isinstance(x, SArr) or (isinstance(x, _np.ndarray) and x.dtype != object):
        out.append(x.dtype)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _dts(y, out)


INDEXFN = {_np.argsort, _np.nonzero, _np.searchsorted, _np.argmax, _np.argmin, _np.argwhere, _np.flatnonzero, _np.lexsort, _np.count_nonzero, _np.array_equal}
BOOLFN = {_np.isin, _np.all, _np.any, _np.array_equal}


def generic(func, args, kw):
    """numpy function on SArrs: real numpy on plain arrays if all items are concrete, on object arrays otherwise"""
    kw = {k: (v if not isinstance(v, SInt) else builtins.int(v)) for k, v in kw.items()}
    out = kw.pop("out", None)
    if out is not None:
        r = generic(func, args, kw)
        out[...] = r
        return out
    if not _any_sym(args) and not _any_sym(kw):
        r = func(*_walk(args, SArr.nparray), **_walk(kw, SArr.nparray))
        return _back(r, None)
    dt = kw.pop("dtype", None)
    kw.pop("casting", None)
    if func in (_np.concatenate, _np.hstack, _np.vstack, _np.stack, _np.column_stack):
        args = ([y if isinstance(y, (SArr, _np.ndarray)) else SArr.of(y) for y in args[0]],) + tuple(args[1:])
    ts = []
    _dts(args, ts)
    names = [t for t in ts if t.names]
    t = _np.dtype(dt) if dt is not None else None
    if t is None and func not in INDEXFN and func not in BOOLFN and ts:
        try:
            t = ts[0] if names else _np.result_type(*ts)
        except TypeError:
            t = None
        if t is not None and func in (_np.sum, _np.prod, _np.cumsum, _np.cumprod) and t.kind in "bi":
            t = _np.dtype(_np.int64)
    if func in BOOLFN:
        t = _np.dtype(bool)
    if func in INDEXFN:
        t = None
    try:
        r = func(*_walk(args, SArr.obj), **_walk(kw, SArr.obj))
    except (TypeError, AttributeError) as e:
        raise Unsupported(f"{getattr(func, '__name__', func)}: {e}")
    return _back(r, t, first_only=func in (_np.unique, _np.intersect1d, _np.unique_all if hasattr(_np, "unique_all") else None))


def _back(r, t, first_only=False):
    if isinstance(r, tuple):
        return tuple(_back(x, t if (i == 0 or not first_only) else None) for i, x in enumerate(r))
    if isinstance(r, list):
        return [_back(x, t) for x in r]
    if isinstance(r, _np.ndarray):
        return SArr.of(r, t if r.dtype == object else None) if r.ndim or r.dtype != object else _cast(r[()], t) if t is not None else r[()]
    if t is not None and is_sym(r):
        return _cast(r, t)
    return r


def dispatch(fn):
    def call(*a, **k):
        f = OVERRIDE.get(fn)
        if f is not None:
            return f(*a, **k)
        if isinstance(fn, _np.ufunc):
            for x in a:
                if isinstance(x, SArr):
                    return x.__array_ufunc__(fn, "__call__", *a, **k)
            if any(is_sym(x) for x in a) or _any_sym(a):
                return _sym_ufunc(fn, "__call__", a, k.pop("dtype", None), k)
            r = fn(*a, **k)
            return SArr.of(r) if isinstance(r, _np.ndarray) and r.ndim and r.dtype != object else r
        return generic(fn, a, k)
    call.__name__ = getattr(fn, "__name__", "f")
    if isinstance(fn, _np.ufunc):
        def method(m):
            def f(*a, **k):
                if m == "at":
                    return a[0].__array_ufunc__(fn, "at", *a)
                a = (a[0] if isinstance(a[0], SArr) else SArr.of(a[0]),) + tuple(a[1:])
                if m == "outer":
                    b = SArr.of(a[1])
                    return a[0].reshape(a[0].shape + (1,) * b.ndim).__array_ufunc__(fn, "__call__", a[0].reshape(a[0].shape + (1,) * b.ndim), b, **k)
                return a[0].__array_ufunc__(fn, m, *a, **k)
            return f
        for m in ("at", "outer", "reduce", "accumulate"):
            setattr(call, m, method(m))
    return call


def _where(c, *xy):
    if not xy:
        c = SArr.of(c) if not isinstance(c, SArr) else c
        return tuple(SArr.of(x) for x in _np.nonzero(_np.array([bool(v) for v in c.values()], dtype=bool).reshape(c.shape)))
    objs = _np.broadcast_arrays(_to_obj(c), _to_obj(xy[0]), _to_obj(xy[1]))
    o = _np.empty(objs[0].shape, dtype=object)
    t = _result(_np.add, xy)
    f = o.reshape(-1)
    for i, (a, x, y) in enumerate(zip(*[z.ravel() for z in objs])):
        f[i] = s_ite(a if isinstance(a, (SBool, bool, _np.bool_)) else a != 0, x, y)
    return SArr.of(f.reshape(o.shape), t)


def _nonzero(c):
    return _where(c)


def _flatnonzero(c):
    return _where(c.ravel() if isinstance(c, SArr) else SArr.of(c).ravel())[0]


def _argwhere(c):
    r = _where(c)
    return SArr.of(_np.stack([x.nparray() for x in r], axis=-1))


def _count_nonzero(c, **kw):
    if kw:
        raise Unsupported("count_nonzero")
    return sum((_cast(v, _np.dtype(_np.int64)) if isinstance(v, (bool, _np.bool_, SBool)) else _cast(v != 0, _np.dtype(_np.int64)) for v in SArr.of(c).values()), 0)


def _all(a, axis=None, **kw):
    a = a if isinstance(a, SArr) else SArr.of(a)
    if axis is None:
        return s_and(*[_cast(v, _np.dtype(bool)) for v in a.values()])
    return _redux(a, axis, lambda xs: s_and(*[_cast(v, _np.dtype(bool)) for v in xs]), bool)


def _any(a, axis=None, **kw):
    a = a if isinstance(a, SArr) else SArr.of(a)
    if axis is None:
        return s_or(*[_cast(v, _np.dtype(bool)) for v in a.values()])
    return _redux(a, axis, lambda xs: s_or(*[_cast(v, _np.dtype(bool)) for v in xs]), bool)


def _redux(a, axis, f, t):
    o = _np.moveaxis(a.obj_raw(), axis, -1)
    r = _np.empty(o.shape[:-1], dtype=object)
    fl = r.reshape(-1)
    for i, row in enumerate(o.reshape(-1, o.shape[-1])):
        fl[i] = f(list(row))
    return SArr.of(fl.reshape(r.shape), t)


def _minmax(kind):
    def f(a, axis=None, **kw):
        a = a if isinstance(a, SArr) else SArr.of(a)
        if "initial" in kw:
            raise Unsupported("initial=")

        def red(xs):
            if not xs:
                raise ValueError("zero-size array to reduction operation which has no identity")
            r = xs[0]
            for x in xs[1:]:
                r = s_ite(x < r if kind == "min" else x > r, x, r)
            return r
        return red(a.values()) if axis is None else _redux(a, axis, red, a.dt)
    return f


def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = a if isinstance(a, SArr) else SArr.of(a)
    if a.concrete():
        r = _np.unique(a.nparray(), return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis, **kw)
        return _back(r, None)
    if axis is not None:
        if axis != 0 or a.ndim != 2:
            raise Unsupported("unique along an axis")
        vals = [SRow(a.get(p) for p in row) for row in a.pos]
    else:
        vals = a.values()
    order = _stable_order(vals)
    groups = []
    for i in order:
        if groups and bool(vals[groups[-1][0]] == vals[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    if axis is not None:
        o = _np.empty((len(groups), a.shape[1]), dtype=object)
        for k, g in enumerate(groups):
            for j in range(a.shape[1]):
                o[k, j] = vals[g[0]][j]
        u = SArr.of(o, a.dt)
    else:
        u = SArr.new(len(groups), a.dt)
        for k, g in enumerate(groups):
            u[k] = vals[g[0]]
    out = [u]
    if return_index:
        out.append(SArr.of(_np.array([min(g) for g in groups], dtype=_np.intp)))
    if return_inverse:
        inv = _np.zeros(len(vals), dtype=_np.intp)
        for k, g in enumerate(groups):
            inv[g] = k
        out.append(SArr.of(inv))
    if return_counts:
        out.append(SArr.of(_np.array([len(g) for g in groups], dtype=_np.intp)))
    return out[0] if len(out) == 1 else tuple(out)


def _stable_order(vals):
    """stable merge order by forking on comparisons"""
    import functools
    return sorted(range(len(vals)), key=functools.cmp_to_key(lambda i, j: -1 if bool(vals[i] < vals[j]) else (1 if bool(vals[j] < vals[i]) else 0)))


def _aslist(a):
    a = a if isinstance(a, SArr) else SArr.of(a)
    return a, a.values()


def _setdiff1d(a, b, assume_unique=False):
    if not assume_unique:
        a = _unique(a)
    a, va = _aslist(a if not isinstance(a, SArr) else a.ravel())
    b, vb = _aslist(b)
    keep = [i for i, v in enumerate(va) if not any(bool(v == w) for w in vb)]
    return a.ravel()[_np.array(keep, dtype=_np.intp)]


def _intersect1d(a, b, assume_unique=False, return_indices=False):
    a, b = (x if isinstance(x, SArr) else SArr.of(x) for x in (a, b))
    t = a.dt if a.dt.names else _np.result_type(a.dt, b.dt)
    ia, ib = _np.arange(a.size), _np.arange(b.size)
    if not assume_unique:
        a, ia = _unique(a, return_index=True)
        b, ib = _unique(b, return_index=True)
        ia, ib = ia.nparray(), ib.nparray()
    va, vb = a.values(), b.values()
    # as numpy: concatenation, stable sort, equal neighbours
    vals = va + vb
    order = _stable_order(vals)
    res, r1, r2 = [], [], []
    for x, y in zip(order, order[1:]):
        if bool(vals[x] == vals[y]):
            res.append(vals[x])
            r1.append(x)
            r2.append(y - len(va))
    u = SArr.new(len(res), t)
    for k, v in enumerate(res):
        u[k] = v
    if return_indices:
        r1, r2 = _np.array(r1, dtype=_np.intp), _np.array(r2, dtype=_np.intp)
        if not assume_unique:
            r1, r2 = ia[r1], ib[r2]
        return u, SArr.of(r1), SArr.of(r2)
    return u


def _isin(a, b, assume_unique=False, invert=False, **kw):
    a, b = (x if isinstance(x, SArr) else SArr.of(x) for x in (a, b))
    o = _np.empty(a.size, dtype=object)
    vb = b.values()
    for i, v in enumerate(a.values()):
        if isinstance(v, SRow):
            r = s_or(*[s_and(*[s_eq(x, y) for x, y in zip(v, w)]) for w in vb])
        else:
            r = s_or(*[s_eq(v, w) for w in vb])
        o[i] = s_not(r) if invert else r
    return SArr.of(o.reshape(a.shape), bool)


def _sort(a, axis=-1, **kw):
    a = a if isinstance(a, SArr) else SArr.of(a)
    if a.ndim != 1:
        return generic(_np.sort, (a, axis), {})
    v = a.values()
    u = SArr.new(a.shape, a.dt)
    for k, i in enumerate(_stable_order(v)):
        u[k] = v[i]
    return u


def _argsort(a, axis=-1, **kw):
    a = a if isinstance(a, SArr) else SArr.of(a)
    if a.ndim != 1:
        return generic(_np.argsort, (a, axis), kw)
    return SArr.of(_np.array(_stable_order(a.values()), dtype=_np.intp))


def _lexsort(keys, axis=-1):
    cols = [k.values() if isinstance(k, SArr) else list(k) for k in keys]
    rows = [SRow(c[i] for c in reversed(cols)) for i in range(len(cols[0]))]
    return SArr.of(_np.array(_stable_order(rows), dtype=_np.intp))


def _searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        raise Unsupported("sorter")
    a, va = _aslist(a)

    def one(x):
        r = 0
        for w in va:
            r = r + s_ite((w < x) if side == "left" else (w <= x), 1, 0)
        return r
    if isinstance(v, (SArr, _np.ndarray, list)):
        v = v if isinstance(v, SArr) else SArr.of(v)
        o = _np.empty(v.size, dtype=object)
        for i, x in enumerate(v.values()):
            o[i] = one(x)
        return SArr.of(o.reshape(v.shape), _np.intp)
    return one(v)


def _array_equal(a, b, **kw):
    a, b = SArr.of(a), SArr.of(b)
    return a.shape == b.shape and bool(s_and(*[s_eq(x, y) for x, y in zip(a.values(), b.values())]))


def _allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    a, b = _np.broadcast_arrays(_to_obj(a), _to_obj(b))
    return bool(s_and(*[abs(x - y) <= atol + rtol * abs(y) for x, y in zip(a.ravel(), b.ravel())]))


def _repeat(a, n, axis=None):
    a = a if isinstance(a, SArr) else SArr.of(a)
    if isinstance(n, SArr):
        n = _np.array([builtins.int(x) for x in n.values()], dtype=_np.intp).reshape(n.shape)
    elif isinstance(n, SInt):
        n = builtins.int(n)
    return SArr(a.st, _np.repeat(a.pos, n, axis=axis), a.dt).copy()


def _posfn(fn, copy=True):
    """functions that only rearrange items"""
    def f(a, *r, **k):
        if not isinstance(a, SArr):
            return _back(fn(a, *r, **k), None)
        r = tuple(builtins.int(x) if isinstance(x, SInt) else x for x in r)
        x = SArr(a.st, fn(a.pos, *r, **k), a.dt)
        return x.copy() if copy else x
    return f


def _take(a, idx, axis=None, mode="raise", **kw):
    a = a if isinstance(a, SArr) else SArr.of(a)
    if mode == "clip":
        n = a.size if axis is None else a.shape[axis]
        idx = idx if isinstance(idx, SArr) else SArr.of(idx)
        idx = SArr.of([s_ite(v < 0, 0, s_ite(v > n - 1, n - 1, v)) for v in idx.values()], idx.dt).reshape(idx.shape) if idx.size else idx
    elif mode != "raise":
        raise Unsupported("take mode " + mode)
    if axis is None:
        return a.ravel()[idx]
    return a[(slice(None),) * (axis % a.ndim) + (idx,)]


def _join(fn):
    def f(arrs, *r, dtype=None, casting=None, **k):
        arrs = [x if isinstance(x, SArr) else SArr.of(x) for x in arrs]
        t = _np.dtype(dtype) if dtype is not None else (arrs[0].dt if arrs and arrs[0].dt.names else _np.result_type(*[x.dt for x in arrs]))
        # tag positions so that every item is found again
        flat, base, pos = [], 0, []
        for x in arrs:
            flat += [(x, int(p)) for p in x.pos.ravel()]
            pos.append((_np.arange(x.size) + base).reshape(x.shape))
            base += x.size
        p = fn(pos, *r, **k)
        out = SArr.new(p.shape, t)
        for q, i in zip(out.pos.ravel(), p.ravel()):
            x, pp = flat[int(i)]
            if x.dt == t:
                x._copycell(out.st, int(q), pp)
            else:
                out.st.write(int(q), t, x.st.read(pp, x.dt))
        return out
    return f


def _copyf(a, *r, **k):
    return a.copy() if isinstance(a, SArr) else SArr.of(a)


def _ascontig(a, dtype=None):
    if isinstance(a, SArr):
        if dtype is not None and _np.dtype(dtype) != a.dt:
            return a.astype(dtype)
        return a if a.pos.flags.c_contiguous else a.copy()
    return SArr.of(a, dtype)


def _dot(a, b):
    a, b = SArr.of(a), SArr.of(b)
    if a.concrete() and b.concrete():
        return _back(_np.dot(a.nparray(), b.nparray()), None)
    t = _np.result_type(a.dt, b.dt)
    r = _np.dot(a.obj(), b.obj())
    return SArr.of(r, t) if isinstance(r, _np.ndarray) and r.ndim else _cast(r, t)


def _sum(a, axis=None, dtype=None, **kw):
    a = a if isinstance(a, SArr) else SArr.of(a)
    t = _np.dtype(dtype) if dtype is not None else (_np.dtype(_np.int64) if a.dt.kind in "bi" else a.dt)
    if a.concrete():
        return _back(_np.sum(a.nparray(), axis=axis, dtype=dtype, **kw), None)

    def red(xs):
        r = 0
        for x in xs:
            r = r + _cast(x, t)
        return r
    if kw.get("keepdims"):
        raise Unsupported("keepdims")
    return _cast(red(a.values()), t) if axis is None else _redux(a, axis, red, t)


def _cumsum(a, axis=None, dtype=None, **kw):
    a = a if isinstance(a, SArr) else SArr.of(a)
    if a.concrete():
        return _back(_np.cumsum(a.nparray(), axis=axis, dtype=dtype), None)
    if a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    t = _np.dtype(dtype) if dtype is not None else (_np.dtype(_np.int64) if a.dt.kind in "bi" else a.dt)
    out, r = SArr.new(a.shape, t), 0
    for i, v in enumerate(a.values()):
        r = r + _cast(v, t)
        out[i] = r
    return out


def _diff(a, n=1, axis=-1, prepend=None, append=None):
    a = a if isinstance(a, SArr) else SArr.of(a)
    if a.ndim != 1 and (prepend is not None or append is not None or axis not in (0, -1, a.ndim - 1)):
        raise Unsupported("diff")
    if prepend is not None or append is not None:
        a = _join(_np.concatenate)([SArr.of(x).reshape(-1) for x in ([] if prepend is None else [prepend])] + [a] + [SArr.of(x).reshape(-1) for x in ([] if append is None else [append])])
    for _ in range(n):
        a = a[1:] - a[:-1] if axis == 0 or a.ndim == 1 else a[..., 1:] - a[..., :-1]
    return a


def builtins_item(x):
    return x.values()[0] if isinstance(x, SArr) and x.size == 1 else x


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **kw):
    start, stop = (builtins_item(x) for x in (start, stop))
    num = builtins.int(num)
    if not isinstance(start, (SReal, SInt)) and not isinstance(stop, (SReal, SInt)):
        return generic(_np.linspace, (start, stop, num), dict(endpoint=endpoint, retstep=retstep, dtype=dtype))
    if retstep:
        raise Unsupported("linspace with the step")
    div = num - 1 if endpoint else num
    v = [start + (stop - start) * i / div if i else start + (stop - start) * 0 for i in range(num)]
    if endpoint and num > 1:
        v[-1] = stop
    return SArr.of(v, _dt(dtype, _np.float64))


OVERRIDE = {_np.linspace: _linspace, _np.where: _where, _np.nonzero: _nonzero, _np.flatnonzero: _flatnonzero, _np.argwhere: _argwhere, _np.count_nonzero: _count_nonzero, _np.all: _all, _np.any: _any,
            _np.max: _minmax("max"), _np.min: _minmax("min"), _np.amax: _minmax("max"), _np.amin: _minmax("min"), _np.unique: _unique, _np.setdiff1d: _setdiff1d, _np.intersect1d: _intersect1d,
            _np.isin: _isin, _np.sort: _sort, _np.argsort: _argsort, _np.lexsort: _lexsort, _np.searchsorted: _searchsorted, _np.array_equal: _array_equal, _np.allclose: _allclose,
            _np.repeat: _repeat, _np.tile: _posfn(_np.tile), _np.flip: _posfn(_np.flip, False), _np.transpose: _posfn(_np.transpose, False), _np.roll: _posfn(_np.roll),
            _np.moveaxis: _posfn(_np.moveaxis, False), _np.swapaxes: _posfn(_np.swapaxes, False), _np.squeeze: _posfn(_np.squeeze, False), _np.expand_dims: _posfn(_np.expand_dims, False),
            _np.fliplr: _posfn(_np.fliplr, False), _np.flipud: _posfn(_np.flipud, False), _np.delete: _posfn(_np.delete), _np.broadcast_to: _posfn(_np.broadcast_to, False),
            _np.concatenate: _join(_np.concatenate), _np.hstack: _join(_np.hstack), _np.vstack: _join(_np.vstack), _np.stack: _join(_np.stack), _np.column_stack: _join(_np.column_stack), _np.append: lambda a, b, axis=None: _join(_np.concatenate)([_ascontig(a).ravel(), _ascontig(b).ravel()] if axis is None else [a, b], **({} if axis is None else {"axis": axis})),
            _np.copy: _copyf, _np.ascontiguousarray: _ascontig, _np.dot: _dot, _np.sum: _sum, _np.cumsum: _cumsum, _np.diff: _diff, _np.take: _take,
            _np.ravel: lambda a, *r, **k: (a if isinstance(a, SArr) else SArr.of(a)).ravel(*r, **k), _np.reshape: lambda a, s, **k: (a if isinstance(a, SArr) else SArr.of(a)).reshape(s, **k),
            _np.shape: lambda a: a.shape if hasattr(a, "shape") else SArr.of(a).shape, _np.size: lambda a: a.size if hasattr(a, "size") else SArr.of(a).size,
            _np.ndim: lambda a: a.ndim if hasattr(a, "ndim") else SArr.of(a).ndim, _np.atleast_1d: lambda a: a if isinstance(a, SArr) and a.ndim else SArr.of(a).reshape(-1),
            _np.union1d: lambda a, b: _unique(_join(_np.concatenate)([_ascontig(a).ravel(), _ascontig(b).ravel()]))}


# ------------------------------------------------------------------------------------------------ more functions
class _RC:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, str) for x in k):
            raise Unsupported("r_ with directives")
        xs = [_arange(x.start or 0, x.stop, x.step or 1) if isinstance(x, slice) else SArr.of(x) for x in k]
        if self.axis == 1:
            return OVERRIDE[_np.column_stack](xs) if all(x.ndim < 2 for x in xs) else OVERRIDE[_np.concatenate]([x if x.ndim > 1 else x.reshape(-1, 1) for x in xs], axis=1)
        return OVERRIDE[_np.concatenate]([x.reshape(-1) if x.ndim < 2 else x for x in xs], axis=0)


def _unravel(i, shape, order="C"):
    i = SArr.of(i)
    if i.concrete() and not _any_sym(shape):
        return _back(_np.unravel_index(i.nparray(), _walk(shape, SArr.nparray), order=order), None)
    shape = list(SArr.of(shape).values())
    n = 1
    for s in shape:
        n = n * s
    if any(bool(s_or(v < 0, v >= n)) for v in i.values()):
        raise ValueError("index is out of bounds for array")
    out = []
    for s in shape if order == "F" else shape[::-1]:
        out.append((i % s) if i.ndim else i.values()[0] % s)
        i = i // s
        i = i if isinstance(i, SArr) else SArr.of(i)
    return tuple(out if order == "F" else out[::-1])


def _ravel_multi(ix, shape, mode="raise", order="C"):
    ix = [SArr.of(x) for x in ix]
    if all(x.concrete() for x in ix) and not _any_sym(shape):
        return _back(_np.ravel_multi_index(tuple(x.nparray() for x in ix), _walk(shape, SArr.nparray), mode=mode, order=order), None)
    if mode != "raise":
        raise Unsupported("ravel_multi_index with a mode")
    shape = list(SArr.of(shape).values())
    for x, s in zip(ix, shape):
        if any(bool(s_or(v < 0, v >= s)) for v in x.values()):
            raise ValueError("invalid entry in coordinates array")
    r, f = 0, 1
    for x, s in list(zip(ix, shape))[:: 1 if order == "F" else -1]:
        r, f = x.astype(_np.int64) * f + r, f * s
    return r if r.ndim else r.values()[0]


def _take_along(a, i, axis=-1):
    a, i = SArr.of(a), SArr.of(i)
    ax = axis % a.ndim
    i = _np.array([builtins.int(v) for v in i.values()], dtype=_np.int64).reshape(i.shape)
    g = list(_np.ix_(*[range(n) for n in i.shape]))
    g[ax] = i
    return a[tuple(g)]


def _bincount(a, weights=None, minlength=0):
    if weights is not None:
        raise Unsupported("bincount with weights")
    v = [builtins.int(x) for x in SArr.of(a).values()]
    return SArr.of(_np.bincount(_np.array(v, dtype=_np.int64), minlength=minlength))


def _choose(a, cs, **kw):
    a = SArr.of(a)
    r = SArr.of(cs[-1])
    for k in range(len(cs) - 2, -1, -1):
        r = _where(a == k, cs[k], r)
    return r


def _select(cl, xs, default=0):
    r = default
    for c, x in list(zip(cl, xs))[::-1]:
        r = _where(c, x, r)
    return r


def _argm(kind):
    def f(a, axis=None, **kw):
        a = a if isinstance(a, SArr) else SArr.of(a)
        if a.concrete():
            return _back(getattr(_np, "arg" + kind)(a.nparray(), axis=axis), None)

        def red(xs):
            if not xs:
                raise ValueError("attempt to get " + kind + " of an empty sequence")
            xs = [_int(x) if isinstance(x, (SBool, bool, _np.bool_)) else x for x in xs]
            xs = [mkint(x) if z3.is_expr(x) else x for x in xs]
            b = 0
            m = xs[0]
            for n, x in enumerate(xs[1:], 1):
                c = x > m if kind == "max" else x < m
                b, m = s_ite(c, n, b), s_ite(c, x, m)
            return b
        return red(a.values()) if axis is None else _redux(a, axis, red, _np.dtype(_np.int64))
    return f


def _mean(a, axis=None, **kw):
    a = a if isinstance(a, SArr) else SArr.of(a)
    n = a.size if axis is None else a.shape[axis]
    s = _sum(a.astype(_np.float64), axis=axis)
    return s / n


def _matmul(a, b):
    return _dot(a, b)


def _ptp(a, axis=None):
    return OVERRIDE[_np.max](a, axis) - OVERRIDE[_np.min](a, axis)


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = SArr.of(a), SArr.of(b)
    f = dispatch(_np.absolute)
    return f(a - b) <= atol + rtol * f(b)


def _put(a, i, v, **kw):
    a.put(i, v)


def _putmask(a, m, v):
    a[...] = _where(m, v, a)


def _copyto(d, s, casting="same_kind", where=True):
    d[...] = s if where is True else _where(where, s, d)


def _sqrt1(x):
    if not is_sym(x):
        return _np.sqrt(float(x))
    e = _real(x)
    r = z3.Real(f"sqrt!{e.get_id()}")
    ctx.keep.append((r.get_id(), e))
    ctx.add(z3.And(r >= 0, z3.Implies(e >= 0, r * r == e)))
    return SReal(r)


def _elem(f, kind=None):
    def g(*xs, **kw):
        bs = _np.broadcast_arrays(*[_to_obj(x) for x in xs])
        o = _np.empty(bs[0].shape, dtype=object)
        fl = o.reshape(-1)
        for i, v in enumerate(zip(*[b.ravel() for b in bs])):
            fl[i] = f(*v)
        t = _np.dtype(bool) if kind == "b" else _np.dtype(_np.float64) if kind == "f" else _result(_np.add, xs)
        return SArr.of(fl.reshape(o.shape), t) if o.ndim else fl[0]
    return g


def _rint1(x):
    if not is_sym(x):
        return _np.rint(x)
    e = _real(x)
    n = z3.ToInt(e + z3.RealVal("1/2"))
    return SReal(z3.ToReal(z3.If(z3.And(z3.ToReal(n) == e + z3.RealVal("1/2"), n % 2 == 1), n - 1, n)))


def _fmod1(a, b):
    if not is_sym(a) and not is_sym(b):
        return _np.fmod(a, b)
    r = abs(a) % abs(b)
    return s_ite(a < 0, -r, r)


def _divmod(a, b):
    a = a if isinstance(a, SArr) else SArr.of(a) if isinstance(b, SArr) is False and not is_sym(a) else a
    return a // b, a % b


def _b(x):
    return _cast(x, _np.dtype(bool)) if not isinstance(x, (bool, SBool)) else x


OVERRIDE.update({_np.unravel_index: _unravel, _np.ravel_multi_index: _ravel_multi, _np.take_along_axis: _take_along, _np.bincount: _bincount, _np.choose: _choose, _np.select: _select,
                 _np.argmax: _argm("max"), _np.argmin: _argm("min"), _np.mean: _mean, _np.matmul: _matmul, _np.ptp: _ptp, _np.isclose: _isclose, _np.put: _put, _np.putmask: _putmask,
                 _np.copyto: _copyto, _np.divmod: _divmod, _np.sqrt: _elem(_sqrt1, "f"), _np.rint: _elem(_rint1, "f"), _np.fmod: _elem(_fmod1),
                 _np.hypot: _elem(lambda a, b: _sqrt1(a * a + b * b), "f"), _np.logical_xor: _elem(lambda a, b: s_or(s_and(_b(a), s_not(_b(b))), s_and(s_not(_b(a)), _b(b))), "b")})


# ------------------------------------------------------------------------------------------------ facade
class _Type(type):
    def __call__(cls, x=0):
        if isinstance(x, (SInt, SReal, SBool)):
            return _cast(x, cls.dtype)
        if isinstance(x, (SArr, list, tuple)):
            return SArr.of(x, cls.dtype)
        return cls.real_type(x)

    def __instancecheck__(cls, o):
        if isinstance(o, cls.real_type):
            return True
        return (isinstance(o, SInt) and cls.dtype.kind in "iu") or (isinstance(o, SReal) and cls.dtype.kind == "f") or (isinstance(o, SBool) and cls.dtype.kind == "b")

    def __eq__(cls, o):
        try:
            return cls.dtype == _np.dtype(o)
        except TypeError:
            return False

    def __hash__(cls):
        return hash(cls.real_type)

    def __or__(cls, o):
        return cls.real_type

    def __ror__(cls, o):
        return cls.real_type


def _ty(t):
    return _Type(t.__name__, (), dict(dtype=_np.dtype(t), real_type=t, itemsize=_np.dtype(t).itemsize))


class _Abs(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real_type) or isinstance(o, cls.also)

    def __or__(cls, o):
        return cls.real_type

    def __ror__(cls, o):
        return cls.real_type


def _abs_ty(n, t, also):
    return _Abs(n, (), dict(real_type=t, also=also))


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, (SReal, SBool)):
            return _cast(x, _np.dtype(_np.int64))
        if isinstance(x, SArr):
            return SIntType(x.values()[0])
        return builtins.int(x, *a)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SInt))

    def __or__(cls, o):
        return builtins.int

    def __ror__(cls, o):
        return builtins.int

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SIntType(metaclass=_IntMeta):
    dtype = _np.dtype(_np.int64)
    from_bytes = builtins.int.from_bytes


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, (SInt, SReal, SBool)):
            return _cast(x, _np.dtype(_np.float64))
        return builtins.float(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SReal))

    def __or__(cls, o):
        return builtins.float

    def __ror__(cls, o):
        return builtins.float

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SFloatType(metaclass=_FloatMeta):
    dtype = _np.dtype(_np.float64)


class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SArr, _np.ndarray))

    def __or__(cls, o):
        return _np.ndarray

    def __ror__(cls, o):
        return _np.ndarray

    def __getitem__(cls, o):
        return _np.ndarray


class _Nd(metaclass=_NdMeta):
    pass


def _num(*a):
    return [builtins.int(x) if isinstance(x, SInt) else x for x in a]


def _dt(t, default=_np.float64):
    if t is None:
        t = default
    if t is SIntType or t is builtins.int:
        return _np.dtype(_np.int64)
    if t is SFloatType:
        return _np.dtype(_np.float64)
    return _np.dtype(t)


def _arange(*a, dtype=None, **k):
    if len(a) <= 1 or not any(isinstance(x, SInt) for x in a):
        return SArr.of(_np.arange(*_num(*a), **({} if dtype is None else {"dtype": _dt(dtype)})))
    start, stop = a[0], a[1]
    step = a[2] if len(a) > 2 else 1
    # number of items concretized, values kept symbolic
    n = -((start - stop) // step)
    n = builtins.max(0, builtins.int(n))
    o = _np.empty(n, dtype=object)
    for i in range(n):
        o[i] = start + step * i
    return SArr.of(o, _dt(dtype, _np.int64))


class Facade:
    """what the code under test sees as numpy"""
    def __init__(self):
        for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "intp", "float32", "float64", "bool_", "complex64", "complex128", "longlong", "intc"):
            if hasattr(_np, n):
                setattr(self, n, _ty(getattr(_np, n)))
        self.bool = self.bool_
        self.integer = _abs_ty("integer", _np.integer, SInt)
        self.floating = _abs_ty("floating", _np.floating, SReal)
        self.ndarray = _Nd
        self.newaxis = None

    def zeros(self, shape, dtype=None, **k):
        return SArr.new(shape, _dt(dtype), _zero(_dt(dtype)))

    def ones(self, shape, dtype=None, **k):
        return SArr.new(shape, _dt(dtype), 1)

    def empty(self, shape, dtype=None, **k):
        return SArr.new(shape, _dt(dtype))

    def full(self, shape, v, dtype=None, **k):
        if dtype is None:
            dtype = SArr.of([v]).dt if not isinstance(v, (SArr, list)) else SArr.of(v).dt
        a = SArr.new(shape, _dt(dtype))
        a[...] = v
        return a

    def zeros_like(self, a, dtype=None, **k):
        return self.zeros(k.get("shape", a.shape), dtype if dtype is not None else a.dtype)

    def empty_like(self, a, dtype=None, **k):
        return self.empty(a.shape, dtype if dtype is not None else a.dtype)

    def ones_like(self, a, dtype=None, **k):
        return self.ones(a.shape, dtype if dtype is not None else a.dtype)

    def full_like(self, a, v, dtype=None, **k):
        return self.full(a.shape, v, dtype if dtype is not None else a.dtype)

    def array(self, obj, dtype=None, copy=True, **k):
        a = SArr.of(obj, None if dtype is None else _dt(dtype))
        if k.get("ndmin", 0) > a.ndim:
            a = a.reshape((1,) * (k["ndmin"] - a.ndim) + a.shape)
        return a

    def asarray(self, obj, dtype=None, **k):
        if isinstance(obj, SArr) and (dtype is None or _dt(dtype) == obj.dt):
            return obj
        return self.array(obj, dtype)

    asanyarray = asarray

    def fromiter(self, it, dtype, count=-1):
        return SArr.of(list(it), _dt(dtype)) if True else None

    def arange(self, *a, **k):
        return _arange(*a, **k)

    def linspace(self, *a, **k):
        return _linspace(*a, **k)

    def eye(self, *a, **k):
        return SArr.of(_np.eye(*_num(*a), **k))

    identity = eye

    def dtype(self, *a):
        return _np.dtype(*[_np.int64 if x is SIntType else x for x in a])

    def result_type(self, *a):
        return _np.result_type(*[_dt_of(x) for x in a])

    def issubdtype(self, a, b):
        f = lambda x: getattr(x, "real_type", x)  # noqa: E731
        return _np.issubdtype(f(a), f(b))

    def prod(self, a, axis=None, dtype=None, **k):
        a = a if isinstance(a, SArr) else SArr.of(a)
        if a.concrete():
            return _back(_np.prod(a.nparray(), axis=axis, dtype=None if dtype is None else _dt(dtype)), None)
        r = 1
        for v in a.values():
            r = r * v
        return r

    r_ = property(lambda self: _RC(0))
    c_ = property(lambda self: _RC(1))

    def isscalar(self, x):
        return is_sym(x) or _np.isscalar(x)

    def __getattr__(self, n):
        v = getattr(_np, n)
        if callable(v) and not isinstance(v, type):
            return dispatch(v)
        if isinstance(v, type(sys)):
            return v
        return v


def _zero(dt):
    if dt.names:
        return SRow(_zero(dt[i]) for i in range(len(dt.names)))
    return False if dt.kind == "b" else 0


facade = Facade()
