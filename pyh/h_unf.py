"""unfitted domains: sets of cells and facets, tags, requests of quadratures"""
import math
from types import SimpleNamespace

import numpy as np

import fake_dolfinx as F

# facet statuses of the C++ unfitted domain
CUT, FULL, EMPTY, CUT_UNF, CUT_EXT, CUT_UNF_EXT, FULL_UNF, FULL_EXT, UNF, EXT, UNF_EXT = range(11)
IS_CUT, IS_EMPTY, HAS_UNF = (CUT, CUT_UNF, CUT_EXT, CUT_UNF_EXT), (EMPTY, FULL_EXT, EXT), (CUT_UNF, CUT_UNF_EXT, FULL_UNF, UNF, UNF_EXT)


class Domain:
    """C++ unfitted domain; status of each cell and of each (cell, lexicographic facet), possibly symbolic"""
    def __init__(self, H, grid, cells, facets):
        self.H, self.grid, self.cells, self.facets = H, grid, cells, facets
        self.num_total_cells = len(cells)
        self.memo = {}

    def holds(self, key, st, group):
        if not isinstance(st, int):
            if (key, group) not in self.memo:
                self.memo[key, group] = bool(self.H.member(st, group))
            return self.memo[key, group]
        return st in group

    def _cells(self, which, ids):
        ids = range(len(self.cells)) if ids is None else [int(i) for i in self.H.vals(ids)]
        return np.array(sorted(i for i in ids if self.holds(("c", i), self.cells[i], (which,))), dtype=np.int64)

    def get_cut_cells(self, ids=None):
        return self._cells(0, ids)

    def get_full_cells(self, ids=None):
        return self._cells(1, ids)

    def get_empty_cells(self, ids=None):
        return self._cells(2, ids)

    def _facets(self, group, c, f):
        out = [(int(a), int(b)) for a, b in zip(self.H.vals(c), self.H.vals(f)) if self.holds((int(a), int(b)), self.facets[int(a), int(b)], group)]
        return np.array([x[0] for x in out], dtype=np.int64), np.array([x[1] for x in out], dtype=np.int32)

    def get_cut_facets(self, c, f):
        return self._facets(IS_CUT, c, f)

    def get_full_facets(self, c, f):
        return self._facets((FULL,), c, f)

    def get_empty_facets(self, c, f):
        return self._facets(IS_EMPTY, c, f)

    def get_unf_bdry_facets(self, c, f):
        return self._facets(HAS_UNF, c, f)

    def get_full_unf_bdry_facets(self, c, f):
        return self._facets((FULL_UNF,), c, f)


def build(H, ns, cells, facets, exclude, **kw):
    F.install(H)
    import qugar.cpp
    F.Cfg.cell_perm = lambda n: [(3 * i + 1) % n if n % 3 else (i + 1) % n for i in range(n)]
    qugar.cpp.create_unfitted_impl_domain = lambda f, g: Domain(H, g, cells, facets)
    m = H.mod("qugar.mesh.unfitted_cart_mesh")
    return m.create_unfitted_impl_Cartesian_mesh(F.Comm(), SimpleNamespace(dim=len(ns), cpp_object=None), ns, exclude_empty_cells=exclude, **kw)


def cells(H):
    """cut, full and empty cells of the mesh, with or without the empty ones, and their tags"""
    ns = H.params["ns"]
    n = math.prod(ns)
    st = [H.int(f"s{i}", 0, 2) for i in range(n)]
    exclude = H.flag("exclude")
    if exclude:
        H.assume(H.any([H.no(H.eq(s, 2)) for s in st]))
    m = build(H, ns, st, {}, exclude)
    top = m._cpp_object.topology
    dom = m.cpp_unf_domain_object
    base = [i for i in range(n) if not (exclude and dom.holds(("c", i), st[i], (2,)))]
    truth = [base[int(i)] for i in top.original_cell_index]
    H.check(len(truth) == len(base) and int(m.num_local_cells) == len(base), "the mesh has the active cells only")
    sets = {}
    for q in range(H.params["calls"]):
        k = H.choice(f"k{q}", 0, 2)
        got = [int(x) for x in H.vals((m.get_cut_cells, m.get_full_cells, m.get_empty_cells)[k]())]
        want = [c for c, o in enumerate(truth) if dom.holds(("c", o), st[o], (k,))]
        H.check(got == want, ("cut", "full", "empty")[k] + " cells, sorted")
        sets[k] = want
    tags = [None if H.flag(f"none{i}") else H.choice(f"tag{i}", 1, 2) for i in range(3)] if H.params.get("tags") else None
    if tags:
        t = m.create_cell_meshtags(*tags)
        want = {c: tags[k] for k in range(3) if tags[k] is not None for c, o in enumerate(truth) if dom.holds(("c", o), st[o], (k,))}
        H.check([int(x) for x in H.vals(t.indices)] == sorted(want), "tagged cells, sorted")
        H.check([int(x) for x in H.vals(t.values)] == [want[c] for c in sorted(want)], "tag of each cell")
        H.check(t.dim == len(ns), "dimension of the tags")
    H.reach("end")


def facets(H):
    """facets for exterior and interior integrals after any sequence of queries; three facets have arbitrary statuses"""
    ns = H.params["ns"]
    dim, n = len(ns), math.prod(ns)
    kinds = H.params["pattern"]
    st = {(c, f): kinds[(2 * c + f) % len(kinds)] for c in range(n) for f in range(2 * dim)}
    pairs = sorted(st)
    inner = [(0, 1), (1, 0)]
    outer = [p for p in pairs if p not in inner]
    for i, p in enumerate(inner[: H.params["inner"]]):
        st[p] = H.int(f"i{i}", 0, 10)
    if H.params["outer"]:
        st[outer[H.choice("pos", 0, min(H.params["outer"], len(outer)) - 1)]] = H.int("o", 0, 10)
    m = build(H, ns, [0] * n, st, False)
    import h_facets
    top = m._cpp_object.topology
    lex = h_facets._lex(dim)
    dom = m.cpp_unf_domain_object
    allp = [(c, j) for c in range(n) for j in range(2 * dim)]

    def S(p):
        return (int(top.original_cell_index[p[0]]), lex[p[1]])

    def is_(p, g):
        return dom.holds(S(p), st[S(p)], g)

    def outerp(p):
        return len(top.f2c[top.c2f[p[0]][p[1]]]) == 1

    def got(x):
        return sorted((int(a), int(b)) for a, b in zip(H.vals(x.cell_ids), H.vals(x.local_facet_ids)))
    want = {
        (0, True): lambda p: (outerp(p) and is_(p, IS_CUT)) or (is_(p, HAS_UNF) and not is_(p, (FULL_UNF,))),
        (1, True): lambda p: (outerp(p) and is_(p, (FULL,))) or is_(p, (FULL_UNF,)),
        (2, True): lambda p: outerp(p) and is_(p, IS_EMPTY),
        (0, False): lambda p: not outerp(p) and is_(p, IS_CUT),
        (1, False): lambda p: not outerp(p) and is_(p, (FULL,)),
        (2, False): lambda p: not outerp(p) and (is_(p, IS_EMPTY) or (is_(p, HAS_UNF) and not is_(p, IS_CUT))),
    }
    names = ("cut", "full", "empty")
    for q in range(H.params["calls"]):
        k, ext = H.choice(f"k{q}", 0, 3), H.flag(f"e{q}")
        what = ("exterior" if ext else "interior") + " integrals"
        arg = () if ext and q == 0 else (ext,)  # exterior integrals are the default
        if k == 3:
            g = got(m.get_all_facets(*arg))
            e = [p for p in allp if any(want[i, True](p) for i in range(3))]
            w = e if ext else [p for p in allp if p not in e]
            H.check(g == w, "all facets for " + what)
        else:
            g = got((m.get_cut_facets, m.get_full_facets, m.get_empty_facets)[k](*arg))
            H.check(g == [p for p in allp if want[k, ext](p)], names[k] + " facets for " + what)
    if H.params.get("tags"):
        ext = H.flag("ext")
        tags = [None if H.flag(f"none{i}") else H.choice(f"tag{i}", 1, 2) for i in range(3)]
        res = m.create_facet_tags(*tags) if ext else m.create_facet_tags(*tags, ext_integral=False)
        w = {}
        for k in range(3):
            if tags[k] is not None:
                w.setdefault(tags[k], []).extend(p for p in allp if want[k, ext](p))
        g = {}
        for t, a in res:
            v = [int(x) for x in H.vals(a)]
            H.check(t not in g, "each tag is listed once")
            g[t] = sorted(zip(v[::2], v[1::2]))
        H.check({t: v for t, v in g.items() if v} == {t: sorted(v) for t, v in w.items() if v}, "facets of each tag")
    H.reach("end")


def gauss(H):
    F.install(H)
    U = H.mod("qugar.mesh.unfitted_domain").UnfittedDomain
    d = H.int("d", 0, H.params["max"])
    n = U.get_num_Gauss_points(d)
    H.check(H.all([n >= 1, 2 * n - 1 >= d]), "enough points for the degree")
    H.check(H.any([H.eq(n, 1), 2 * (n - 1) - 1 < d]), "no more points than needed")
    H.reach("end")


def quads(H):
    """quadratures are requested for the original cells and facets and returned for the ones given, in the same order"""
    import qugar.cpp
    import h_facets
    ns = H.params["ns"]
    dim, n = len(ns), math.prod(ns)
    m = build(H, ns, [0] * n, {}, False)
    top = m._cpp_object.topology
    lex = h_facets._lex(dim)
    MF = H.mod("qugar.mesh.mesh_facets").MeshFacets
    calls = []
    res = SimpleNamespace(n_pts_per_entity="n", points="p", weights="w", normals="m")

    def rec(name):
        def f(*a, **k):
            calls.append((name, a, k))
            return res
        return f
    for f in ("create_quadrature", "create_unfitted_bound_quadrature", "create_facets_quadrature_exterior_integral", "create_facets_quadrature_interior_integral"):
        setattr(qugar.cpp, f, rec(f))
    deg = H.choice("deg", 0, 6)
    npts = max((deg + 2) // 2, 1)
    k = H.choice("k", 0, 3)
    c = H.ints("c", 2, 0, n - 1, np.int32)
    lf = H.ints("f", 2, 0, 2 * dim - 1, np.int32)
    want = [[int(top.original_cell_index[i]) for i in range(n)], lex]

    def mapped(got, given, table, what):
        g = H.vals(got)
        H.check(len(g) == 2 and H.all([H.all([H.implies(H.eq(a, i), H.eq(b, t)) for i, t in enumerate(table)]) for a, b in zip(H.vals(given), g)]), what)
    if k == 0:
        r = m.create_quad_custom_cells(deg, c)
    elif k == 1:
        r = m.create_quad_unf_boundaries(deg, c)
    else:
        fac = MF(c, lf)
        r = m.create_quad_custom_facets(deg, fac, k == 2)
    H.check(len(calls) == 1, "one request")
    name, a, kw = calls[0]
    H.check(name == ("create_quadrature", "create_unfitted_bound_quadrature", "create_facets_quadrature_exterior_integral", "create_facets_quadrature_interior_integral")[k], "kind of quadrature requested")
    if k < 2:
        mapped(kw["cells"], c, want[0], "cells requested in the original numbering")
        H.check(kw["n_pts_dir"] == npts, "points per direction")
        H.check(r.cells is c, "the quadrature refers to the given cells")
        if k == 1:
            H.check(kw["include_facet_unf_bdry"] is False and kw["exclude_ext_bdry"] is False and r.normals == "m", "boundaries on facets excluded; normals returned")
    else:
        mapped(a[1], c, want[0], "cells requested in the original numbering")
        mapped(a[2], lf, want[1], "facets requested in the original numbering")
        H.check(a[3] == npts, "points per direction")
        H.check(r.facets is fac, "the quadrature refers to the given facets")
    H.check(r.n_pts_per_entity == "n" and r.points == "p" and r.weights == "w", "numbers of points, points and weights are passed on")
    H.check((a[0] if a else None) is m.cpp_unf_domain_object, "the domain is the one of the mesh")
    H.reach("end%d" % k)
