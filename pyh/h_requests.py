"""what forms ask for: rules and degrees of their integrals, coefficients given to scalars, and versions of the dependencies"""
from types import SimpleNamespace

import numpy as np


class Rule:
    """FFCx: identified by its points and weights only"""
    def __init__(self, points, weights, tensor_factors=None):
        self.points, self.weights, self.tensor_factors = np.asarray(points), np.asarray(weights), tensor_factors
        self.hashed = False

    def key(self):
        return ",".join(f"{v:g}" for v in list(self.points.ravel()) + list(self.weights.ravel()))

    def __hash__(self):
        self.hashed = True
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Rule) and self.key() == o.key()

    def id(self):
        assert self.hashed, "id before hash"
        return self.key()


TYPES = ("cell", "exterior_facet", "interior_facet")


def quadratures(H):
    H.fresh()
    import ffcx.ir.representationutils as ru
    p = H.params
    asked = []

    def create(integral_type, cell, degree, scheme, elements, use_tensor_product=False):
        asked.append((integral_type, cell, degree, scheme, elements, use_tensor_product))
        n = 3 if degree >= 4 else 2 if degree >= 2 else 1  # the same rule for two degrees
        k = TYPES.index(integral_type)
        pts = np.array([[k + 0.25 * i, 0.5 if scheme == "default" else 0.75] for i in range(n)])
        tf = ["factor"] if use_tensor_product else None
        return {"quadrilateral": pts}, {"quadrilateral": np.full(n, 1.0 / n)}, ({"quadrilateral": tf} if tf else {})
    ru.create_quadrature_points_and_weights, ru.QuadratureRule = create, Rule
    m = H.mod("qugar.dolfinx.quadrature_data")
    m.create_quadrature_points_and_weights, m.QuadratureRule = create, Rule
    sf = H.flag("sum_factorization")
    reqs, fds = [], []
    at = 0
    for shape in p["forms"]:
        itds = []
        fd = SimpleNamespace(argument_elements=("elements", len(fds)), integral_data=itds)
        for n in shape:
            itgs = []
            for _ in range(n):
                kind = p["kinds"][at] if "kinds" in p else H.choice(f"kind{at}", 0, 4)
                deg = H.int(f"deg{at}", 0, 5)
                t = TYPES[kind % 3] if kind < 3 else "cell"
                if kind == 3:  # unfitted boundary
                    md = dict(quadrature_rule="custom", quadrature_degree=deg, quadrature_points=[[0.1, 0.1], [0.2, 0.2]], quadrature_weights=[-1.0, -1.0], custom_unfitted_boundary=True)
                elif kind == 4:  # a rule of the user's
                    md = dict(quadrature_rule="custom", quadrature_degree=deg, quadrature_points=[[0.3, 0.1]], quadrature_weights=[1.0])
                    if H.flag(f"said{at}"):
                        md["custom_unfitted_boundary"] = False
                else:
                    md = dict(quadrature_rule="default" if at % 2 == 0 else "GLL", quadrature_degree=deg)
                itgs.append(SimpleNamespace(metadata=lambda md=md: md, integral_type=lambda t=t: t, ufl_domain=lambda at=at: SimpleNamespace(ufl_cell=lambda: ("cell", at))))
                reqs.append((kind, t, deg, md, at, fd, dict(md)))
                at += 1
            itds.append(SimpleNamespace(integrals=itgs))
        fds.append(fd)
    got = m.extract_quadrature_data(SimpleNamespace(form_data=fds), {"sum_factorization": sf})
    std = [r for r in reqs if r[0] < 3]
    H.check(len(asked) == len(std), "a rule is built for each integral that has none")
    want = {}
    for a, (kind, t, deg, md, k, fd, _) in zip(asked, std):
        H.check(H.all([a[0] == t, a[1] == ("cell", k), H.eq(a[2], deg), a[3] == md["quadrature_rule"], a[4] == fd.argument_elements]), "the rule of the integral's cell, type, degree and scheme")
        H.check(bool(a[5]) == (sf and t == "cell"), "tensor-product rules exactly for cells with sum factorization")
    asked.clear()
    for kind, t, deg, md, k, fd, before in reqs:
        if kind < 3:
            pts, w, _ = create(t, None, deg, md["quadrature_rule"], None)
            r = Rule(pts["quadrilateral"], w["quadrilateral"])
        else:
            r = Rule(md["quadrature_points"], md["quadrature_weights"])
        want.setdefault(r.key(), []).append((deg, kind == 3, r))
        H.check(list(md) == list(before) and all(md[x] is before[x] for x in md), "the integrals' metadata is not modified")
    H.check(set(got) == set(want), "every rule, once")
    for name, q in got.items():
        H.check(H.all([q.name == name, q.rule.key() == name]), "rules are found by their name")
        degs = [d for d, _, _ in want[name]]
        H.check(H.all([q.degree >= d for d in degs]), "no integral gets a lower degree than it asked for")
        H.check(H.any([H.eq(q.degree, d) for d in degs]), "a degree asked for")
        H.check(bool(q.unfitted_boundary) == want[name][0][1], "rules of unfitted boundaries are marked, and only these")
    H.reach("end")


def scalar(H):
    """scalars assembled with the constants and coefficients given"""
    H.fresh()
    import dolfinx
    import dolfinx.cpp.fem
    import dolfinx.fem
    import dolfinx.fem.assemble as am
    calls = []
    version = ("0.10.0", "0.10.0.post5", "0.10.1", "0.11.0", "1.10.2")[H.choice("version", 0, 4)]
    dolfinx.__version__ = version
    am.pack_constants = lambda M: ("constants of", M)
    am.pack_coefficients = lambda M: ("coefficients of", M)
    dolfinx.cpp.fem.assemble_scalar = lambda *a: calls.append(a) or ("value", len(calls))

    def original(M, constants=None, coeffs=None):
        """Assemble."""
        return "original"
    original.__name__ = "assemble_scalar"
    am.assemble_scalar = original
    dolfinx.fem.assemble_scalar = original
    m = H.mod("qugar.dolfinx._dolfinx_patches")
    for _ in range(H.choice("times", 1, 2)):
        m.apply_patches()
    f = am.assemble_scalar if H.flag("module") else dolfinx.fem.assemble_scalar
    M = SimpleNamespace(_cpp_object="cpp")
    ct = None if H.flag("no constants") else ("c", 1) if H.flag("values") else ()
    cf = None if H.flag("no coefficients") else {"k": 2} if H.flag("some") else {}
    pos = H.flag("positional")
    r = f(M, ct, cf) if pos else f(M, coeffs=cf, constants=ct) if ct is not None else f(M, coeffs=cf)
    if version.startswith("0.10."):
        H.check(len(calls) == 1 and r == ("value", 1), "the scalar is assembled once")
        a = calls[0]
        H.check(a[0] == "cpp" and (a[1] is ct if ct is not None else a[1] == ("constants of", M)), "constants given, or the form's")
        H.check(a[2] is cf if cf is not None else a[2] == ("coefficients of", M), "coefficients given, or the form's")
        H.check(f.__name__ == "assemble_scalar" and f.__doc__ == "Assemble.", "the function's name and documentation")
    else:
        H.check(r == "original" and calls == [], "versions without the defect are left alone")
    H.reach("end")


class Version:
    """a.b.c or a.b.c.suffix with arbitrary numbers"""
    def __init__(self, nums, suffix):
        self.parts = list(nums) + ([suffix] if suffix else [])

    def split(self, sep=None, maxsplit=-1):
        assert sep == "." and maxsplit == -1
        return list(self.parts)


def versions(H):
    H.fresh()
    m = H.mod("qugar.utils")
    v = []
    for k in range(3):
        nums = [H.int(f"v{k}_{i}", 0, 3000) for i in range(3)]
        suffix = ("", "post5", "dev0")[H.choice("suffix", 0, 2)] if k == 0 else ""
        v.append((nums, Version(nums, suffix) if H.sym else ".".join(str(n) for n in nums) + ("." + suffix if suffix else "")))

    def lt(a, b):
        return H.any([a[0] < b[0], H.all([H.eq(a[0], b[0]), a[1] < b[1]]), H.all([H.eq(a[0], b[0]), H.eq(a[1], b[1]), a[2] < b[2]])])
    got = bool(m.check_version_in_range(v[0][1], v[1][1], v[2][1]))
    want = H.all([H.no(lt(v[0][0], v[1][0])), lt(v[0][0], v[2][0])])
    H.check(H.iff(got, want), "versions from the minimum to below the maximum are accepted, compared as numbers")
    H.reach("end")
