"""measure over unfitted boundaries: area element, normals, and tags of the measure

UFL expressions are replaced by matrices of fractions whose numerators and denominators are (symbolic) numbers."""
import math
from types import SimpleNamespace

import dolfinx
import dolfinx.fem
import dolfinx.mesh
import numpy as np
import ufl
import ufl.geometry
import ufl.measure
import ufl.operators
import ufl.protocols

W = SimpleNamespace()


def const(x):
    return isinstance(x, (int, float, np.number))


def key(x):
    """identity of a number"""
    return ("c", float(x)) if const(x) else x.e.get_id()


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def cancel(a, b):
    """common factors of two products, and the rest of each"""
    common, ra, rb = [], [], list(b)
    for x in a:
        k = [i for i, y in enumerate(rb) if key(x) == key(y)]
        if k:
            common.append(x)
            del rb[k[0]]
        else:
            ra.append(x)
    return common, ra, rb


class F:
    """n * product(num) / product(den) * sqrt(root)**(0 or 1); what is in den is not zero"""
    def __init__(self, n, den=(), num=(), root=None):
        if not const(n):
            n, num = 1, (n,) + tuple(num)
        self.n, self.den, self.num, self.root = n, tuple(den), tuple(num), root

    @staticmethod
    def of(x):
        return x if isinstance(x, F) else F(x)

    def plain(self):
        """the same number without root"""
        if self.root is None:
            return self
        return F(self.n * self.root.value(), self.den, self.num)

    def top(self):
        return self.n * prod(self.num)

    def __add__(self, o):
        o = F.of(o)
        if const(self.n) and self.n == 0:
            return o
        if const(o.n) and o.n == 0:
            return self
        a, b = (self, o) if self.root is o.root else (self.plain(), o.plain())
        da, db = list(a.den), list(b.den)
        common, da, db = cancel(da, db)
        return F(a.top() * prod(db) + b.top() * prod(da), common + da + db, root=a.root)

    def __sub__(self, o):
        return self + F.of(o) * F(-1)

    def __mul__(self, o):
        o = F.of(o)
        a, b, extra = self, o, F(1)
        root = a.root if b.root is None else b.root
        if a.root is not None and b.root is not None:
            if a.root is b.root:
                root, extra = None, a.root.square
            else:
                a, b, root = a.plain(), b, b.root
        num, den = list(a.num) + list(b.num) + list(extra.num), list(a.den) + list(b.den) + list(extra.den)
        _, num, den = cancel(num, den)
        return F(a.n * b.n * extra.n, den, num, root)

    def inv(self):
        if self.root is not None:
            # 1 / (q sqrt(s)) = sqrt(s) / (q s)
            return F(self.n, self.den, self.num).inv() * self.root.square.inv() * F(1, root=self.root)
        return F(1 / self.n if self.n != 1 else 1, self.num, self.den)

    def same(self, o):
        d = self - F.of(o)
        if W.H.sym:
            import psx
            import z3
            e = d.top()
            if const(e):
                return e == 0
            return psx.SReal(z3.simplify(e.e, som=True)) == 0
        a, b = self.float(), F.of(o).float()
        return abs(a - b) <= 1e-6 * (abs(a) + abs(b)) + 1e-9

    def float(self):
        return self.top() / prod(self.den) * (self.root.value() if self.root is not None else 1)

    def positive(self):
        if not W.H.sym:
            return self.float() > 0
        return W.H.all([self.top() * prod(self.den) > 0, True if self.root is None else self.root.value() > 0])


class Root:
    """square root of a fraction without roots"""
    def __init__(self, square):
        self.square, self.v = square, None

    def value(self):
        if self.v is None:
            s = self.square
            if W.H.sym:
                W.nr += 1
                self.v = W.H.real(f"root{W.nr}", 0)
                W.H.assume(self.v * self.v * prod(s.den) == s.top())
            else:
                self.v = math.sqrt(max(s.float(), 0))
        return self.v


class Expr:
    def __init__(self, rows, shape=None):
        self.m = rows
        self.ufl_shape = shape if shape is not None else (len(rows), len(rows[0]))

    def _s(self):
        assert self.ufl_shape == ()
        return self.m[0][0]

    def __mul__(self, o):
        if isinstance(o, ufl.Measure):
            return NotImplemented
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        o = as_expr(o)
        return mul(self, Expr([[o._s().inv()]], ()))

    def __rtruediv__(self, o):
        return as_expr(o) / self

    def __neg__(self):
        return mul(-1, self)

    def __pow__(self, k):
        r = as_expr(1)
        if k == 0.5:
            return sqrt(self)
        if k == -1:
            return as_expr(1) / self
        for _ in range(int(k)):
            r = r * self
        return r

    def __add__(self, o):
        o = as_expr(o)
        assert o.ufl_shape == self.ufl_shape
        return Expr([[a + b for a, b in zip(x, y)] for x, y in zip(self.m, o.m)], self.ufl_shape)

    def __sub__(self, o):
        return self + as_expr(o) * -1

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return Expr([[self.m[k[0]][k[1]]]], ())
        return Expr([[self.m[k][0]]], ()) if len(self.ufl_shape) == 1 else Expr([[x] for x in self.m[k]], (len(self.m[k]),))

    def __len__(self):
        return self.ufl_shape[0]

    @property
    def T(self):
        return transpose(self)


def as_expr(x):
    return x if isinstance(x, Expr) else Expr([[F.of(x)]], ())


def mul(a, b):
    a, b = as_expr(a), as_expr(b)
    if a.ufl_shape == () or b.ufl_shape == ():
        s, o = (a, b) if a.ufl_shape == () else (b, a)
        return Expr([[x * s._s() for x in r] for r in o.m], o.ufl_shape)
    assert len(a.ufl_shape) == 2 and a.ufl_shape[1] == b.ufl_shape[0], (a.ufl_shape, b.ufl_shape)
    n = len(b.m[0])
    return Expr([[tot([r[k] * b.m[k][j] for k in range(len(b.m))]) for j in range(n)] for r in a.m], a.ufl_shape[:1] + b.ufl_shape[1:])


def tot(x):
    r = x[0]
    for y in x[1:]:
        r = r + y
    return r


def transpose(a):
    assert len(a.ufl_shape) == 2
    return Expr([list(c) for c in zip(*a.m)])


def deter(a):
    m = a.m
    if len(m) == 1:
        return m[0][0]
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return tot([m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3)])


def det(a):
    assert a.ufl_shape[0] == a.ufl_shape[1]
    return Expr([[deter(a)]], ())


def cofac(a):
    m, n = a.m, len(a.m)
    if n == 1:
        return Expr([[F(1)]])
    if n == 2:
        return Expr([[m[1][1], m[1][0] * F(-1)], [m[0][1] * F(-1), m[0][0]]])

    def c(i, j):
        p, q, r, s = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
        return m[p][r] * m[q][s] - m[p][s] * m[q][r]
    return Expr([[c(i, j) for j in range(3)] for i in range(3)])


def inv(a):
    if a.ufl_shape == ():
        return as_expr(1) / a
    assert a.ufl_shape[0] == a.ufl_shape[1], "inverse of a matrix that is not square"
    d = deter(a).inv()
    return Expr([[x * d for x in r] for r in transpose(cofac(a)).m])


def z3_true(q):
    import z3
    return z3.is_true(z3.simplify(q.e))


def sqrt(a):
    a = as_expr(a)._s().plain()
    for k in W.roots:
        q = a.same(k.square)
        if q is True or (W.H.sym and not isinstance(q, bool) and z3_true(q)):
            break
    else:
        k = Root(a)
        W.roots.append(k)
    return Expr([[F(1, root=k)]], ())


def inner(a, b):
    a, b = as_expr(a), as_expr(b)
    assert a.ufl_shape == b.ufl_shape
    return Expr([[tot([x * y for p, q in zip(a.m, b.m) for x, y in zip(p, q)])]], ())


def dot(a, b):
    return inner(a, b) if len(a.ufl_shape) == 1 and len(b.ufl_shape) == 1 else mul(a, b)


def jacobian(domain):
    return domain.jac


class Const(Expr):
    """stands for dolfinx.fem.Constant: here its value is the normal of the domain at a point"""
    def __init__(self, domain, value):
        v = np.asarray(value)
        assert v.shape == (domain.topology.dim,) and v.dtype == domain.geometry.x.dtype and not v.any()
        Expr.__init__(self, [[F(x)] for x in domain.normal], (len(domain.normal),))


class Mesh:
    def __init__(self, tdim, jac, normal):
        self.topology = SimpleNamespace(dim=tdim)
        self.geometry = SimpleNamespace(x=np.zeros((2, 3), np.float32), dim=jac.ufl_shape[0])
        self.jac, self.normal = jac, normal

    def ufl_domain(self):
        return "plain " + str(id(self))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Integral:
    def __init__(self, *a):
        self.integrand, self.integral_type, self.domain, self.subdomain_id, self.metadata, self.subdomain_data = a


class Form:
    def __init__(self, integrals):
        self._i = list(integrals)

    def integrals(self):
        return tuple(self._i)

    def __add__(self, o):
        return Form(self._i + o._i) if isinstance(o, Form) else self

    __radd__ = __add__


class Measure:
    """follows ufl.Measure"""
    def __init__(self, integral_type, domain=None, subdomain_id="everywhere", metadata=None, subdomain_data=None):
        assert isinstance(subdomain_id, (str, int, tuple))
        self._integral_type, self._domain, self._subdomain_id = integral_type, None if domain is None else domain.ufl_domain() if isinstance(domain, Mesh) else domain, subdomain_id
        assert metadata is None or isinstance(metadata, dict)
        self._metadata, self._subdomain_data = {} if metadata is None else metadata, subdomain_data

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def reconstruct(self, integral_type=None, subdomain_id=None, domain=None, metadata=None, subdomain_data=None):
        return Measure(self._integral_type if integral_type is None else integral_type, self._domain if domain is None else domain, self._subdomain_id if subdomain_id is None else subdomain_id,
                       self._metadata if metadata is None else metadata, self._subdomain_data if subdomain_data is None else subdomain_data)

    def __call__(self, subdomain_id=None, metadata=None, domain=None, subdomain_data=None, degree=None, scheme=None):
        if degree is not None or scheme is not None:
            metadata = {} if metadata is None else metadata.copy()
            if degree is not None:
                metadata["quadrature_degree"] = degree
            if scheme is not None:
                metadata["quadrature_rule"] = scheme
        return self.reconstruct(subdomain_id=subdomain_id, domain=domain, metadata=metadata, subdomain_data=subdomain_data)

    def __rmul__(self, integrand):
        if isinstance(integrand, (int, float)):
            integrand = as_expr(integrand)
        if not isinstance(integrand, Expr):
            return NotImplemented
        assert integrand.ufl_shape == (), "only scalars can be integrated"
        if isinstance(self._subdomain_id, tuple):
            return Form([i for d in self._subdomain_id for i in (integrand * self.reconstruct(subdomain_id=d)).integrals()])
        return Form([Integral(integrand, self._integral_type, self._domain, self._subdomain_id, self._metadata, self._subdomain_data)])

    def __hash__(self):
        return hash((self._integral_type, self._subdomain_id, self._domain, tuple(sorted((k, id(v)) for k, v in self._metadata.items())), id(self._subdomain_data)))

    def __eq__(self, o):
        return isinstance(o, Measure) and self._integral_type == o._integral_type and self._subdomain_id == o._subdomain_id and self._domain == o._domain and \
            self._subdomain_data is o._subdomain_data and sorted((k, id(v)) for k, v in self._metadata.items()) == sorted((k, id(v)) for k, v in o._metadata.items())

    def __str__(self):
        return f"{ufl.measure.integral_type_to_measure_name[self._integral_type]}({self._subdomain_id})"

    def __repr__(self):
        return f"Measure({self._integral_type!r}, {self._subdomain_id!r})"


dolfinx.fem.Constant = Const
dolfinx.mesh.Mesh = Mesh
ufl.Measure, ufl.Form, ufl.Integral = Measure, Form, Integral
ufl.measure.Measure, ufl.form.Form = Measure, Form
ufl.measure.integral_type_to_measure_name = {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS"}
ufl.geometry.Jacobian = ufl.Jacobian = jacobian
for mod_ in (ufl, ufl.operators):
    for f_ in (inv, transpose, inner, dot, sqrt, det):
        setattr(mod_, f_.__name__, f_)
    mod_.cofac = lambda a: transpose(cofac(a))
ufl.protocols.id_or_none = lambda x: None if x is None else id(x)


def world(H, gdim, tdim):
    W.H, W.roots, W.nr = H, [], 0
    J = Expr([[F(H.real(f"J{i}{j}", -2, 2)) for j in range(tdim)] for i in range(gdim)])
    if tdim == 2:
        t = [[H.real("t0", -1, 1), H.real("t1", -1, 1)]]
        N = [t[0][1] * -1, t[0][0]]
    else:
        t = [[H.real(f"{c}{i}", -1, 1) for i in range(3)] for c in "tu"]
        a, b = t
        N = [a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3] for i in range(3)]
    metric = mul(transpose(J), J)
    g = deter(J) if gdim == tdim else deter(metric)
    if H.sym:
        H.assume(g.top() != 0)
        H.assume(H.any([x != 0 for x in N]))
    else:
        H.assume(abs(g.top()) > 1e-4)
        H.assume(sum(x * x for x in N) > 1e-6)
    return Mesh(tdim, J, N), J, t, N, g * g if gdim == tdim else g


def area2(J, t):
    """square of the measure of the mapped tangents (a length or the area of a parallelogram)"""
    m = [mul(J, Expr([[F(x)] for x in v], (len(v),))) for v in t]
    if len(m) == 1:
        return inner(m[0], m[0])._s()
    a, b, c = inner(m[0], m[0])._s(), inner(m[1], m[1])._s(), inner(m[0], m[1])._s()
    return a * b - c * c


def ds_of(H, mesh, **k):
    H.fresh()
    m = H.mod("qugar.dolfinx.boundary")
    return m, m.ds_bdry_unf(mesh, **k)


def integrand2(i):
    return i.integrand._s() * i.integrand._s()


def area(H):
    """|J| |N| factor = area of the mapped boundary; the same for all the measures derived from one"""
    p = H.params
    mesh, J, t, N, g2 = world(H, p["gdim"], p["tdim"])
    m, ds = ds_of(H, mesh)
    kind = p["kind"]
    ids = ["everywhere"]
    if kind == "call":
        ds, ids = ds(3), [3]
    elif kind == "tuple":
        ds, ids = ds((1, 2)), [1, 2]
    elif kind == "init":
        ds, ids = m.ds_bdry_unf(mesh, subdomain_id=(4, 0), degree=3), [4, 0]
    elif kind == "degree":
        ds = ds(degree=5)
    form = (1 if H.flag("literal") else as_expr(1)) * ds
    H.check([i.subdomain_id for i in form.integrals()] == ids, "subdomains of the integrals")
    want = area2(J, t)
    for i in form.integrals():
        H.check(i.integral_type == "cell" and i.metadata.get("custom_unfitted_boundary") is True, "the integral is not one over the unfitted boundary")
        # the measure of cells includes already |det J| (or its generalization), and the normal is the one of the tangents
        H.check((integrand2(i) * g2).same(want), "the measure is not the area of the mapped boundary")
    H.reach("end")


def normal(H):
    """the mapped normal: unit, orthogonal to the mapped tangents, and with the orientation of the normal"""
    p = H.params
    mesh, J, t, N, g2 = world(H, p["gdim"], p["tdim"])
    H.fresh()
    m = H.mod("qugar.dolfinx.boundary")
    unit = p["unit"]
    n = m.mapped_normal(mesh) if unit else m.mapped_normal(mesh, normalize=False)
    H.check(n.ufl_shape == (p["gdim"],), "shape of the normal")
    if not unit:
        for v in t:
            H.check(inner(n, mul(J, Expr([[F(x)] for x in v], (len(v),))))._s().same(0), "the normal is not orthogonal to the boundary")
        # n . J N = N . N > 0, n in the tangent space of the manifold (n = J y), and so its norm is the one of the area
        JN = mul(J, Expr([[F(x)] for x in N], (len(N),)))
        H.check(inner(n, JN)._s().same(tot([F(x) * x for x in N])), "orientation or length of the normal")
        H.check((inner(n, n)._s() * g2).same(area2(J, t)), "length of the normal")
    else:
        H.check(inner(n, n)._s().same(1), "the normal is not a unit vector")
        k = m.mapped_normal(mesh, normalize=False)
        gd = p["gdim"]
        par = [(n.m[i][0] * k.m[j][0]).same(n.m[j][0] * k.m[i][0]) for i in range(gd) for j in range(i)]
        H.check(H.all(par), "direction of the unit normal")
        length = sqrt(inner(k, k))._s()
        H.check(H.all([(n.m[i][0] * length).same(k.m[i][0]) for i in range(gd)]), "orientation of the unit normal")
    H.reach("end")


def tags(H):
    """metadata, degree, data and identifiers of the measures derived from one; equality"""
    W.H, W.roots, W.nr = H, [], 0
    tdim = H.choice("tdim", 2, 3)
    mesh = Mesh(tdim, Expr([[F(int(i == j)) for j in range(tdim)] for i in range(tdim)]), [1] + [0] * (tdim - 1))
    other = Mesh(tdim, Expr([[F(2 * int(i == j)) for j in range(tdim)] for i in range(tdim)]), [1] + [0] * (tdim - 1))
    data, data2 = object(), object()
    mine = {"estimated": 7, "quadrature_rule": "mine"}
    md = mine if H.flag("metadata") else None
    deg = H.choice("degree", 0, 4) if H.flag("with_degree") else None
    m, ds = ds_of(H, mesh, subdomain_data=data, metadata=md, degree=deg)
    H.check(mine == {"estimated": 7, "quadrature_rule": "mine"}, "metadata given by the user modified")

    def good(d, sid, dat, degree, known, msh):
        q = d.metadata()
        pts = np.array(q["quadrature_points"])
        i = (1 * d).integrals()
        return all([isinstance(d, m.ds_bdry_unf), d.subdomain_id() == sid, d.subdomain_data() is dat, q.get("quadrature_degree") == degree, q["quadrature_rule"] == "custom",
                    q["custom_unfitted_boundary"] is True, pts.shape == (2, tdim), len(q["quadrature_weights"]) == 2, (q.get("estimated") == 7) == known, d.integral_type() == "cell",
                    len(i) == 1, i[0].integrand.m[0][0].same(1 if msh is mesh else F(0.5)), i[0].metadata.get("quadrature_degree") == degree, i[0].subdomain_data is dat, i[0].domain == msh.ufl_domain()])
    known = md is not None
    H.check(good(ds, "everywhere", data, deg, known, mesh), "measure")
    sid = H.choice("sid", 0, 3)
    H.check(good(ds(sid), sid, data, deg, known, mesh), "measure of a subdomain")
    H.check(good(ds(sid)(sid + 1), sid + 1, data, deg, known, mesh), "measure of a subdomain of a subdomain")
    H.check(good(ds(subdomain_data=data2), "everywhere", data2, deg, known, mesh), "measure with other data")
    H.check(good(ds(degree=9), "everywhere", data, 9, False, mesh), "measure with another degree")
    H.check(good(ds(sid, degree=9), sid, data, 9, False, mesh), "measure of a subdomain with another degree")
    H.check(good(ds(domain=other), "everywhere", data, deg, known, other), "measure of another domain")
    H.check(good(ds(sid)(domain=other)(2), 2, data, deg, known, other), "measure of a subdomain of another domain")
    dx = Measure("cell", mesh, metadata=ds.metadata(), subdomain_data=data)
    H.check(ds == m.ds_bdry_unf(mesh, subdomain_data=data, metadata=ds.metadata()), "equal measures that differ")
    H.check(ds == ds(ds.subdomain_id()) and hash(ds) == hash(ds(ds.subdomain_id())), "equal measures that differ")
    H.check(not (ds == ds(sid)) and not (ds == ds(subdomain_data=data2)) and not (ds == ds(domain=other)) and not (ds == dx), "different measures are equal")
    H.check(str(ds) == "ds_bdry_unf(everywhere)" or "ds_bdry_unf" in str(ds), "name of the measure")
    H.reach("end")
