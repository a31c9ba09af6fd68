"""functions of the Python interface: the function of qugar.cpp that is created, its parameters and its precision

qugar.cpp is replaced by functions with the signatures of the wrappers (python/nanobind_wrappers/impl_functions.cpp), which describe the
function created, with the parameters that the C++ constructors take for those left out."""
import numpy as np

Z3, E3X, E3Z = [0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]
Z2, E2X = [0.0, 0.0], [1.0, 0.0]
B = ("bzr", "b", True)
SIG = {
    "create_disk": [[("radius", "r"), B], [("radius", "r"), ("center", "p2"), B]],
    "create_sphere": [[("radius", "r"), B], [("radius", "r"), ("center", "p3"), B]],
    "create_ellipse": [[("axes", "p2"), B], [("axes", "p2"), ("ref", "RefSystem_2D"), B]],
    "create_ellipsoid": [[("axes", "p3"), B], [("axes", "p3"), ("ref", "RefSystem_3D"), B]],
    "create_cylinder": [[("radius", "r"), ("origin", "p3"), B], [("radius", "r"), ("origin", "p3"), ("axis", "p3"), B]],
    "create_annulus": [[("inner", "r"), ("outer", "r"), B], [("inner", "r"), ("outer", "r"), ("center", "p2"), B]],
    "create_torus": [[("major", "r"), ("minor", "r"), B], [("major", "r"), ("minor", "r"), ("center", "p3"), B], [("major", "r"), ("minor", "r"), ("center", "p3"), ("axis", "p3"), B]],
    "create_square_2D": [[]], "create_square_3D": [[]],
    "create_square": [[("affine", "AffineTransf_2D")], [("affine", "AffineTransf_3D")]],
    "create_plane": [[B], [("origin", "p3"), ("normal", "p3"), B]],
    "create_line": [[B], [("origin", "p2"), ("normal", "p2"), B]],
    "create_constant_2D": [[("value", "r"), B]], "create_constant_3D": [[("value", "r"), B]],
    "create_dim_linear": [[("coefs", "p4")], [("coefs", "p8")], [("coefs", "p4"), ("affine", "AffineTransf_2D")], [("coefs", "p8"), ("affine", "AffineTransf_3D")]],
    "create_affinely_transformed": [[("func", "f2"), ("affine", "AffineTransf_2D")], [("func", "f3"), ("affine", "AffineTransf_3D")]],
    "create_negative": [[("func", "f2")], [("func", "f3")]],
    "create_functions_addition": [[("lhs", "f2"), ("rhs", "f2")], [("lhs", "f3"), ("rhs", "f3")]],
    "create_functions_subtraction": [[("lhs", "f2"), ("rhs", "f2")], [("lhs", "f3"), ("rhs", "f3")]],
}
TPMS = ["Schoen", "SchoenIWP", "SchoenFRD", "FischerKochS", "SchwarzPrimitive", "SchwarzDiamond"]
for t in TPMS:
    SIG["create_" + t] = [[("periods", "p2"), ("z", "r", 0.0)], [("periods", "p3")]]
NAMES = dict(radius="radius", center="center", axes="semi_axes", ref="ref_system", origin="origin", axis="axis", inner="inner_radius", outer="outer_radius", major="major_radius", minor="minor_radius",
             affine="affine_transf", normal="normal", value="value", coefs="coefficients", lhs="lhs_func", rhs="rhs_func", periods="periods", z="z", bzr="use_bzr")
DEFAULTS = {"create_disk": dict(center=Z2), "create_sphere": dict(center=Z3), "create_ellipse": dict(ref=None), "create_ellipsoid": dict(ref=None), "create_cylinder": dict(axis=E3Z), "create_annulus": dict(center=Z2),
            "create_torus": dict(center=Z3, axis=E3Z), "create_plane": dict(origin=Z3, normal=E3X), "create_line": dict(origin=Z2, normal=E2X), "create_dim_linear": dict(affine=None)}


def number(v):
    return type(v).__name__ in ("SReal", "SInt") or isinstance(v, (int, float, np.integer, np.floating))


class Func:
    """an implicit function of qugar.cpp"""
    def __init__(self, kind, dim, par):
        self.kind, self.dim, self.par = kind, dim, par


def tag(name, dim):
    c = type(name, (), dict(dim=dim))
    return c


def install(H):
    import qugar.cpp as q
    for n in ("RefSystem", "AffineTransf"):
        for d in (2, 3):
            setattr(q, f"{n}_{d}D", tag(f"{n}_{d}D", d))
    q.ImplicitFunc_2D = q.ImplicitFunc_3D = Func

    def accepts(k, v):
        if k == "r":
            return not isinstance(v, (bool, np.bool_)) and number(v)
        if k == "b":
            return isinstance(v, (bool, np.bool_))
        if k[0] == "p":
            return hasattr(v, "dtype") and tuple(getattr(v, "shape", ())) == (int(k[1:]),) and v.dtype == np.dtype(np.float64)
        if k[0] == "f" and len(k) == 2:
            return isinstance(v, Func) and v.dim == int(k[1])
        return isinstance(v, getattr(q, k))

    def make(name):
        def create(*a, **kw):
            for sig in SIG[name]:
                par, ok = {}, len(a) <= len(sig) and not set(kw) - {NAMES.get(s[0], s[0]) for s in sig[len(a):]}
                for i, s in enumerate(sig):
                    if not ok:
                        break
                    nm = NAMES.get(s[0], s[0]) if not (name == "create_affinely_transformed" and s[0] == "func") else "base_func"
                    v = a[i] if i < len(a) else kw.get(nm, s[2] if len(s) > 2 else None)
                    ok = v is not None and accepts(s[1], v)
                    par[s[0]] = v
                if ok:
                    for k, v in DEFAULTS.get(name, {}).items():
                        par.setdefault(k, v)
                    t = " ".join(s[1] for s in sig) + name
                    dim = 3 if any(x in t for x in ("p3", "p8", "3D", "f3")) or name in ("create_sphere", "create_torus", "create_plane", "create_ellipsoid", "create_cylinder") else 2
                    return Func(name[7:].removesuffix("_2D").removesuffix("_3D"), dim, par)
            raise TypeError(f"{name}(): incompatible function arguments")
        return create
    for n in SIG:
        setattr(q, n, make(n))
    return H.mod("qugar.impl.impl_function"), q


def same(H, got, want):
    if want is None or isinstance(want, (bool, str)) or not hasattr(want, "__len__"):
        if number(want) and not isinstance(want, bool):
            return H.eq(got, want)
        return got is want or (isinstance(want, bool) and bool(got) == want)
    g = H.vals(got) if hasattr(got, "shape") else list(got)
    w = H.vals(want) if hasattr(want, "shape") else list(want)
    return len(g) == len(w) and H.all([H.eq(a, b) for a, b in zip(g, w)])


def expect(H, f, kind, dim, **par):
    c = f.cpp_object
    H.check(isinstance(c, Func) and c.kind == kind and c.dim == dim and f.dim == dim, "the function asked for, in its dimension")
    H.check(set(c.par) == set(par), "its parameters")
    for k, v in par.items():
        H.check(same(H, c.par[k], v), "parameters are the ones given, or the documented ones: " + k)


def opt(H, name, n):
    """an optional point"""
    if not H.flag("give_" + name):
        return None
    return H.reals(name, n, -8, 8, [np.float64, np.float32][H.choice("f32_" + name, 0, 1)])


def rejected(H, f, msg):
    try:
        f()
    except AssertionError:
        return
    H.check(False, msg)


def shapes(H):
    m, q = install(H)
    k = H.choice("kind", 0, 8)
    pos = H.real("r", -4, 4), H.real("s", -4, 4)
    dt = [np.float64, np.float32][H.choice("f32", 0, 1)]
    bz = [{}, dict(use_bzr=True), dict(use_bzr=False)][H.choice("bzr", 0, 2)]
    b = bz.get("use_bzr", True)
    r, s = pos
    good = r > 0

    def guarded(ok, f, what):
        """the result, if the parameters are acceptable"""
        if ok:
            return f()
        rejected(H, f, what)
        return None
    if k < 2:
        n = 2 + k
        c = opt(H, "c", n)
        a = {} if c is None else dict(center=c)
        f = guarded(good, lambda: [m.create_disk, m.create_sphere][k](r, **a, **bz), "radii must be positive")
        if f:
            expect(H, f, ["disk", "sphere"][k], n, radius=r, center=[0.0] * n if c is None else c, bzr=b)
    elif k < 4:
        n = k
        ax = H.reals("ax", n, -4, 4, dt)
        rs = [None, getattr(q, f"RefSystem_{n}D")()][H.choice("ref", 0, 1)]
        a = {} if rs is None else dict(ref_system=rs)
        ok = bool(H.all([v > 0 for v in H.vals(ax)]))
        f = guarded(ok, lambda: [m.create_ellipse, m.create_ellipsoid][k - 2](ax, **a, **bz), "semi-axes must be positive")
        if f:
            expect(H, f, ["ellipse", "ellipsoid"][k - 2], n, axes=ax, ref=rs, bzr=b)
    elif k == 4:
        o, ax = H.reals("o", 3, -8, 8, dt), opt(H, "axis", 3)
        f = guarded(good, lambda: m.create_cylinder(r, o, ax, **bz), "radii must be positive")
        if f:
            expect(H, f, "cylinder", 3, radius=r, origin=o, axis=E3Z if ax is None else ax, bzr=b)
    elif k == 5:
        c = opt(H, "c", 2)
        a = {} if c is None else dict(center=c)
        f = guarded(bool(H.all([good, s > 0])), lambda: m.create_annulus(r, s, **a, **bz), "radii must be positive")
        if f:
            expect(H, f, "annulus", 2, inner=r, outer=s, center=Z2 if c is None else c, bzr=b)
    elif k == 6:
        c, ax = opt(H, "c", 3), opt(H, "axis", 3)
        a = {**({} if c is None else dict(center=c)), **({} if ax is None else dict(axis=ax))}
        f = guarded(bool(H.all([good, s > 0])), lambda: m.create_torus(r, s, **a, **bz), "radii must be positive")
        if f:
            expect(H, f, "torus", 3, major=r, minor=s, center=Z3 if c is None else c, axis=E3Z if ax is None else ax, bzr=b)
    else:
        n = k - 5
        o, nr = opt(H, "o", n), opt(H, "n", n)
        f = [m.create_line, m.create_plane][n - 2](o, nr, **bz)
        expect(H, f, ["line", "plane"][n - 2], n, origin=[0.0] * n if o is None else o, normal=[1.0] + [0.0] * (n - 1) if nr is None else nr, bzr=b)
    H.reach("end")


def others(H):
    m, q = install(H)
    k = H.choice("kind", 0, 7)
    d = H.choice("dim", 2, 3)
    dt = [np.float64, np.float32][H.choice("f32", 0, 1)]
    bz = [{}, dict(use_bzr=True), dict(use_bzr=False)][H.choice("bzr", 0, 2)] if k == 0 else {}
    at = [None, getattr(q, f"AffineTransf_{d}D")()][H.choice("affine", 0, 1)] if k in (1, 2) else getattr(q, f"AffineTransf_{d}D")()
    if k == 0:
        v = H.real("v", -8, 8)
        expect(H, m.create_constant(v, d, **bz), "constant", d, value=v, bzr=bz.get("use_bzr", True))
        rejected(H, lambda: m.create_constant(v, H.choice("bad", 0, 1) * 3 + 1), "dimensions other than 2 and 3")
    elif k == 1:
        n = 2 ** d
        c = [H.real(f"c{i}", -8, 8) for i in range(n)] if H.flag("list") else H.reals("c", n, -8, 8, dt)
        expect(H, m.create_dim_linear(c, *([] if at is None else [at])), "dim_linear", d, coefs=c, affine=at)
        bad = np.ones([4, 8, 5, 2][H.choice("bad", 0, 3)])
        if bad.size not in (4, 8) or (at is not None and bad.size != n):
            rejected(H, lambda: m.create_dim_linear(bad, at), "wrong numbers of coefficients")
    elif k == 2:
        if at is None:
            dd = [None, 2, 3][H.choice("d", 0, 2)]
            f = m.create_box(dim=dd) if dd or H.flag("said") else m.create_box()
            expect(H, f, "square", dd or 2)
            rejected(H, lambda: m.create_box(dim=4), "dimensions other than 2 and 3")
        else:
            f = m.create_box(at) if d == 2 and H.flag("left") else m.create_box(at, d)
            expect(H, f, "square", d, affine=at)
            rejected(H, lambda: m.create_box(at, 5 - d), "a dimension other than the transformation's")
    elif k < 7:
        fs = [m.ImplicitFunc(Func("f", d, {})), m.ImplicitFunc(Func("g", d, {}))]
        o = [f.cpp_object for f in fs]
        if k == 3:
            f = m.create_negative(fs[0])
            H.check(f.cpp_object.kind == "negative" and f.cpp_object.par["func"] is o[0], "negative of the function")
        elif k == 6:
            f = m.create_affinely_transformed_functions(fs[0], at)
            H.check(f.cpp_object.kind == "affinely_transformed" and f.cpp_object.par["func"] is o[0] and f.cpp_object.par["affine"] is at, "the function transformed")
        else:
            f = [m.create_functions_addition, m.create_functions_subtraction][k - 4](*fs)
            c = f.cpp_object
            H.check(c.kind == ["functions_addition", "functions_subtraction"][k - 4], "the operation asked for")
            H.check(c.par["lhs"] is o[0] and c.par["rhs"] is o[1], "operands, in order")
    else:
        i = H.choice("tpms", 0, 5)
        f = [m.create_Schoen, m.create_Schoen_IWP, m.create_Schoen_FRD, m.create_Fischer_Koch_S, m.create_Schwarz_Primitive, m.create_Schwarz_Diamond][i]
        p = [H.real(f"p{j}", -8, 8) for j in range(d)] if H.flag("list") else H.reals("p", d, -8, 8, dt)
        z = H.real("z", -8, 8) if H.flag("z_given") else None
        if d == 3 and z is not None:
            rejected(H, lambda: f(p, z), "there is no z coordinate in 3D")
        else:
            want = dict(periods=p)
            if d == 2:
                want["z"] = 0.0 if z is None else z
            expect(H, f(p) if z is None else f(p, z), TPMS[i], d, **want)
        rejected(H, lambda: f(np.ones([1, 4][H.choice("bad", 0, 1)])), "numbers of periods other than 2 and 3")
    H.reach("end")


def sizes(H):
    """points with a wrong number of coordinates are rejected"""
    m, q = install(H)
    k = H.choice("kind", 0, 8)
    n = H.choice("n", 1, 4)
    x = H.np.array([H.real(f"x{i}", 0.5, 8) for i in range(n)])
    r = H.real("r", 0.5, 4)
    c2, c3 = np.ones(2), np.ones(3)
    calls = [(2, lambda: m.create_disk(r, x)), (3, lambda: m.create_sphere(r, x)), (2, lambda: m.create_ellipse(x)), (3, lambda: m.create_ellipsoid(x)), (3, lambda: m.create_cylinder(r, x, c3)),
             (2, lambda: m.create_annulus(r, r, x)), (3, lambda: [m.create_torus(r, r, x), m.create_torus(r, r, c3, x), m.create_torus(r, r, None, x)][0] if n == 3 else m.create_torus(r, r, *[(x,), (c3, x), (None, x)][H.choice("which", 0, 2)])),
             (3, lambda: m.create_plane(*[(x, None), (None, x), (x, c3), (c3, x)][H.choice("which", 0, 3)])), (2, lambda: m.create_line(*[(x, None), (None, x), (x, c2), (c2, x)][H.choice("which", 0, 3)]))]
    want, f = calls[k]
    if n == want:
        f()
    else:
        rejected(H, f, "a wrong number of coordinates")
    H.reach("end")


def evaluation(H):
    """values and gradients: those of the C++ function at the points given, in the points' precision"""
    m, q = install(H)
    d, n = H.choice("dim", 2, 3), H.choice("n", 1, 3)
    f32 = H.flag("f32")
    dt = np.float32 if f32 else np.float64
    X = H.reals("x", (n, d), -4, 4, dt)
    calls = []

    class C(Func):
        def eval(self, p):
            calls.append(p)
            return H.np.array([3.0 * H.vals(p[i])[0] + H.vals(p[i])[d - 1] for i in range(n)])

        def grad(self, p):
            calls.append(p)
            return H.np.array([[2.0 * v for v in H.vals(p[i])] for i in range(n)])
    f = m.ImplicitFunc(C("c", d, {}))
    e, g = f.eval(X), f.grad(X)
    for p in calls:
        H.check(p.dtype == np.dtype(np.float64) and tuple(p.shape) == (n, d), "the C++ function works in double precision")
    H.check(len(calls) == 2 and e.dtype == np.dtype(dt) and g.dtype == np.dtype(dt) and tuple(e.shape) == (n,) and tuple(g.shape) == (n, d), "results have the points' precision")
    if not f32:
        ev = H.vals(e)
        for i in range(n):
            x = H.vals(X[i])
            H.check(H.eq(ev[i], 3.0 * x[0] + x[d - 1]), "values at the points")
            H.check(H.all([H.eq(a, 2.0 * b) for a, b in zip(H.vals(g[i]), x)]), "gradients at the points")
    rejected(H, lambda: f.eval(np.ones((2, 5 - d))), "points of another dimension")
    rejected(H, lambda: f.grad(np.ones((2, 5 - d))), "points of another dimension")
    H.reach("end")
