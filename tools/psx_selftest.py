"""Compares the symbolic numpy of vlib/psx.py with numpy, operation by operation: on every path the operation is run on symbolic
arrays, one model of the path is taken, and the result under it is compared (values, shape, kind) with numpy's on the model's values."""
import sys
sys.path.insert(0, "/verif/vlib")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
import z3
import pyrun
import psx

I, J, M, D, B = "I", "J", "M", "D", "B"
EXPRS = """
np.isin(a, b)
np.isin(a, b, invert=True)
np.isin(a, [1, 2])
np.lexsort((a, b))
np.argsort(a, kind="stable")
np.argsort(-a, kind="stable")
a[np.lexsort((b, a))]
np.searchsorted(np.sort(a), b)
np.searchsorted(np.sort(a), b, side="right")
np.searchsorted(np.array([0, 1, 3]), b)
np.repeat(a, 2)
np.repeat(a, b)
np.repeat(m, 2, axis=0)
np.repeat(a, [1, 0, 2])
np.tile(a, 2)
np.tile(a, (2, 1))
np.divmod(a, 2)
divmod(a, 2)
np.unravel_index(a, (3, 2))
np.ravel_multi_index((b, b), (4, 4))
np.ravel_multi_index((b, b), (4, 4), order="F")
np.unravel_index(a, (3, 2), order="F")
np.meshgrid(a, b)
np.meshgrid(a, b, indexing="ij")
np.kron(a, b)
np.outer(a, b)
np.multiply.outer(a, b)
np.add.outer(a, b)
np.cumsum(a)
np.cumprod(a)
np.diff(a)
np.diff(a, prepend=0)
np.ediff1d(a)
np.insert(a, 0, 7)
np.insert(a, 1, b)
np.append(a, 3)
np.append(a, b)
np.delete(a, 1)
np.delete(m, 0, axis=0)
np.split(a, [1])
np.array_split(a, 2)
np.take(a, [0, 2])
np.take(a, np.clip(b, 0, 2))
np.take(m, 1, axis=1)
np.take_along_axis(m, np.argsort(m, axis=1), axis=1)
np.sort(m, axis=1)
np.sort(m, axis=0)
np.einsum("ij,jk->ik", m, m.T)
np.einsum("i,i->", a, b)
np.einsum("ij->ji", m)
np.roll(a, 1)
np.roll(a, -1)
np.flip(a)
a[::-1]
np.moveaxis(m, 0, 1)
np.expand_dims(a, 0)
np.atleast_2d(a)
np.atleast_1d(a)
np.broadcast_to(a, (2, 3))
np.broadcast_arrays(m[0], m)
np.r_[a, b]
np.c_[a, b]
np.setdiff1d(a, b)
np.intersect1d(a, b)
np.intersect1d(a, b, return_indices=True)
np.union1d(a, b)
np.setxor1d(a, b)
np.bincount(a)
np.bincount(a, minlength=5)
np.unique(a)
np.unique(a, return_index=True)
np.unique(a, return_inverse=True)
np.unique(a, return_counts=True)
np.unique(m, axis=0)
np.unique(a, return_index=True, return_inverse=True, return_counts=True)
np.choose(np.clip(a, 0, 1), [b, b + 1])
np.select([a > 1, a > 0], [a, b], 9)
np.clip(a, 1, 2)
np.minimum(a, b)
np.maximum(a, b)
np.maximum.accumulate(a)
np.add.reduce(a)
np.logical_or.reduce([a > 1, b > 1])
np.logical_and(a > 1, b > 1)
np.logical_not(a > 1)
np.where(a > b, a, b)
np.where(a > 1)
np.where(a > 1)[0]
np.flatnonzero(a == 1)
np.nonzero(a)[0]
np.argwhere(a > 1)
np.count_nonzero(a > 1)
np.any(a > 1)
np.all(a > 1)
np.any(m > 1, axis=1)
np.all(m > 1, axis=0)
(m > 1).any(axis=1)
(m > 1).sum(axis=1)
(a > 1).sum()
(a > 1).nonzero()
a[a > 1]
a[a > 1] * 2
a[~(a > 1)]
m[m[:, 0] > 1]
m[:, 0]
m[..., 0]
m[1]
m[[1, 0]]
m[:, [1, 0]]
m[[0, 1], [1, 0]]
m.T[0]
m.flatten()
m.flatten(order="F")
m.ravel(order="F")
m.reshape(3, 2)
m.reshape(-1, order="F")
m.reshape((3, 2), order="F")
m.sum()
m.sum(axis=0)
m.sum(axis=1)
m.min()
m.max(axis=0)
a.argmax()
a.argmin()
np.argmax(a > 1)
np.argmax(m, axis=1)
np.prod(a)
a.prod()
a.cumsum()
a.mean()
np.mean(d)
np.abs(d)
np.abs(a - 2)
np.sign(a - 1)
d * 2
d / 2
d @ d
m @ m.T
np.dot(a, b)
np.inner(a, b)
np.matmul(m, a)
np.cross(d, d + 1)
np.linalg.norm(d * 0 + 1)
np.allclose(d, d)
np.array_equal(a, b)
np.ix_(np.array([0, 1]), np.array([0, 2]))
m[np.ix_([0, 1], [0, 2])]
np.indices((2, 2))
np.mgrid[0:2, 0:2]
np.stack([a, b])
np.stack([a, b], axis=1)
np.stack((a, b), axis=-1)
np.vstack([a, b])
np.vstack((a, b)).T
np.hstack([a, b])
np.hstack((m, m))
np.column_stack([a, b])
np.dstack([a, b])
np.concatenate([a, b])
np.concatenate([m, m], axis=1)
np.array([a, b])
np.array([a[0], b[0]])
np.asarray(a, dtype=np.int32)
np.asarray([*a, *b])
a.astype(np.int32)
a.astype(np.float64)
np.floor(d)
np.ceil(d)
np.rint(a / 2)
np.zeros_like(a)
np.full_like(a, 5)
np.full((2, 2), a[0])
np.ones(a.shape, dtype=a.dtype) * a
np.empty_like(a).shape
a.tolist()
list(a)
sorted(a.tolist())
[x for x in a if x > 1]
{int(x) for x in a}
dict(zip(a.tolist(), b.tolist()))
sum(a)
max(a)
min(a.tolist())
len(a[a > 1])
a[0] in b
int(a[0]) in b.tolist()
np.in1d(a, b) if hasattr(np, "in1d") else 0
a.copy()
a % 2
a // 2
-a // 2
(-a) % 3
a ** 2
a & 1
a | 1
a ^ 1
a << 1
a >> 1
~a
a == b
a != b
np.equal(a, b)
np.not_equal(a, b)
np.greater(a, b)
np.less_equal(a, b)
(a == 1) | (b == 1)
(a == 1) & ~(b == 1)
(a[:, None] == b[None, :])
(a[:, None] == b).any(axis=1)
np.subtract(a, b)
np.add(a, b)
np.add(a, 1, dtype=np.int64)
np.full(3, -1, dtype=np.int32) + a
np.compress(a > 1, a)
np.extract(a > 1, a)
np.trim_zeros(a)
np.triu(np.outer(a, b))
np.diag(a)
np.trace(np.outer(a, b))
np.digitize(a, [1, 2])
np.partition(a, 1)[1]
np.median(a)
np.swapaxes(m, 0, 1)
np.transpose(m)
np.fliplr(m)
np.flipud(m)
np.rot90(m)
np.squeeze(m[:, :1])
np.ptp(a)
np.fmod(a, 2)
np.mod(a, 2)
np.remainder(a, 2)
np.power(a, 2)
np.square(a)
np.sqrt(d * d)
np.isclose(d, d + 1)
np.ascontiguousarray(m.T)
np.asfortranarray(m)
np.lexsort(m)
np.lexsort(np.vstack([a, b]))
np.argsort(m[:, 0])
np.nonzero(np.isin(a, b))[0]
np.searchsorted(a[np.argsort(a, kind="stable")], a)
np.ndarray.sum(m)
np.vectorize(lambda x: x + 1)(a)
np.fromiter((x for x in a), dtype=np.int64)
np.fromiter(a, dtype=np.int64, count=3)
np.array(list(zip(a, b)))
np.array([(x, y) for x in a for y in b])
np.array(sorted(set(a.tolist())))
np.apply_along_axis(lambda x: x + 1, 1, m)
np.interp(1.5, [1, 2], [3, 4])
np.iinfo(np.int32).max
np.finfo(np.float64).eps
np.isscalar(a[0])
np.issubdtype(a.dtype, np.integer)
np.result_type(a.dtype, np.float64)
np.shape(a)
np.size(a)
np.ndim(m)
np.s_[1:]
np.fmin(a, b)
np.cumsum(np.concatenate(([0], a)))[:-1]
np.concatenate(([0], np.cumsum(a)))
np.array([sum(a[:i]) for i in range(3)])
np.split(a, np.cumsum([1, 1]))
np.zeros((2, 3), dtype=np.int64) + a
np.logical_xor(a > 1, b > 1)
np.tril(np.outer(a, b))
np.nan_to_num(d)
np.hypot(d, d * 0)
np.exp2(a)
np.lcm(a + 1, 2)
np.gcd(a + 1, 2)
np.array(a, copy=True)
np.array(a, dtype=np.int32, ndmin=2)
np.array_equiv(a, b)
"""
STMTS = """
x = a.copy(); x[x > 1] = 9; r = x
x = a.copy(); x[[0, 2]] = b[:2] if b.size >= 2 else 0; r = x
x = a.copy(); x[np.clip(b, 0, 2)] = 7; r = x
x = a.copy(); np.add.at(x, np.clip(b, 0, 2), 1); r = x
x = a.copy(); np.put(x, [0], 5); r = x
x = a.copy(); np.putmask(x, x > 1, 0); r = x
x = a.copy(); np.copyto(x, 3, where=x > 1); r = x
x = a.copy(); np.place(x, x > 5, [4]); r = x
x = np.zeros(4, dtype=np.int32); x[1:] = a; r = x
x = np.zeros((2, 3), dtype=bool); x[0, a > 1] = True; r = x
x = a.copy(); x += 1; r = x
x = a.copy(); x[1:] += x[:-1]; r = x
x = m.copy(); x[:, [0, 1]] = x[:, [1, 0]]; r = x
x = m.copy(); x.sort(axis=1); r = x
x = m.copy(); x[x[:, 0].argsort(kind="stable")] = 0; r = x
x = np.empty(3, dtype=np.int64); x[np.argsort(a, kind="stable")] = np.arange(3); r = x
x = a.copy(); x.fill(2); r = x
x = a.copy(); x.resize(2, refcheck=False); r = x
r = [i for i, v in enumerate(a) if v in (1, 2)]
r = []; [r.extend([i] * int(v)) for i, v in enumerate(a)]
r = {}; [r.setdefault(int(v), []).append(i) for i, v in enumerate(a)]
r = [tuple(x) for x in m]
r = [(i, v) for i, v in np.ndenumerate(m)]
r = [i for i in np.ndindex(2, 2)]
r = [v for v in np.nditer(a)]
r = list(map(int, a))
r = sorted(range(3), key=lambda i: (a[i], i))
r = sorted(zip(a.tolist(), range(3)))
import itertools; r = list(itertools.chain(a, b))
import itertools; r = list(itertools.accumulate(a.tolist()))
from collections import Counter; r = sorted(Counter(a.tolist()).items())
from functools import reduce; r = reduce(np.union1d, (a, b, a))
s = set(a.tolist()); r = [x in s for x in b.tolist()]
r = np.array([x for x in a if x not in b])
r = m.view(dtype=np.dtype([("x", np.int64), ("y", np.int64), ("z", np.int64)])).ravel()["x"]
r = a.dtype.type(3)
r = f"{a.dtype}"
v = np.zeros(3, dtype=[("c", np.int64), ("f", np.int32)]); v["c"] = a; v["f"] = 1; r = np.sort(v, order=("c", "f"))["c"]
v = np.zeros(3, dtype=[("c", np.int64), ("f", np.int64)]); v["c"] = a; v["f"] = a[::-1]; r = np.unique(v)["f"]
"""


def conc(x, m):
    if isinstance(x, (psx.SInt, psx.SReal, psx.SBool)):
        v = m.eval(x.e, model_completion=True)
        if isinstance(x, psx.SInt):
            return v.as_long()
        if isinstance(x, psx.SBool):
            return bool(z3.is_true(v))
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return float(v.as_fraction())
    if isinstance(x, psx.SArr):
        o = x.obj()
        out = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            out[i] = conc(o[i], m)
        return ("arr", str(x.dtype), out.shape, out.tolist())
    if isinstance(x, np.ndarray):
        return ("arr", str(x.dtype), x.shape, [conc(y, m) for y in x.tolist()] if x.dtype == object else x.tolist())
    if isinstance(x, (list, tuple)):
        return [conc(y, m) for y in x]
    if isinstance(x, set):
        return sorted(conc(y, m) for y in x)
    if isinstance(x, dict):
        return sorted((conc(k, m), conc(v, m)) for k, v in x.items())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return str(x)


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-9
    return a == b


def ev(src, stmt, npx, a, b, m, d):
    g = dict(np=npx, a=a, b=b, m=m, d=d, int=psx.SIntType if npx is psx.facade else int, float=psx.SFloatType if npx is psx.facade else float)
    if stmt:
        exec(src, g)
        return g["r"]
    return eval(src, g)


def test(src, stmt):
    bad = []

    def harness(H):
        a, b, m, d = H.ints("a", 3, 0, 3), H.ints("b", 3, 0, 3), H.ints("m", 6, 0, 3).reshape(2, 3), H.reals("d", 3, 0, 4)
        try:
            r, ex = ev(src, stmt, psx.facade, a, b, m, d), None
        except (psx.Infeasible, psx.Cut, psx.Unsupported):
            raise
        except Exception as e:  # noqa: BLE001
            r, ex = None, e
        if psx.ctx.check() != z3.sat:
            return
        mo = psx.ctx.solver.model()
        A, B_, M_, D_ = (np.array(conc(x, mo)[3]) for x in (a, b, m, d))
        D_ = D_.astype(float)
        try:
            R, EX = ev(src, stmt, np, A, B_, M_, D_), None
        except Exception as e:  # noqa: BLE001
            R, EX = None, e
        if (ex is None) != (EX is None):
            bad.append(f"exception {ex!r} / {EX!r} for {A} {B_}")
            return
        if ex is None and not close(conc(r, mo), conc(R, mo)):
            bad.append(f"psx {conc(r, mo)} numpy {conc(R, mo)} for {A} {B_} {M_.tolist()} {D_}")

    e = psx.Engine(time_limit=30)
    api = pyrun.API(True)
    api.np = psx.facade
    e.explore(harness, api)
    return bad, e.incomplete, e.paths


n = 0
for stmt, block in ((0, EXPRS), (1, STMTS)):
    for src in block.strip().splitlines():
        if len(sys.argv) > 1 and sys.argv[1] not in src:
            continue
        bad, inc, paths = test(src, stmt)
        if bad or inc:
            print(f"{src}   [{paths} paths]")
            for x in bad[:1]:
                print("     BAD", str(x)[:300])
            for x in list(inc)[:1]:
                print("     INC", x[:200])
        n += 1
print(n, "operations")
