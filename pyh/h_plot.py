"""visualization data: what is at each place of the plots of grids, unfitted domains, quadratures and reparameterizations

PyVista is replaced by a model of the data sets: cells keep the place they come from, and cell data follows the cells."""
import math
from types import SimpleNamespace

import numpy as np

import fake_dolfinx as F
import h_tp
import h_unf as U

STATUS = "Cell status (0: full, 1: cut, 2: empty)"
FACET = "Facet status (0: full, 1: cut, 2: empty)"
# facets of the cells, (direction, side), in the order in which PyVista extracts them: VTK's for edges; for surfaces of hexahedra, the faces through
# the first point come first
CLASSES = {}
VTK_FACETS = {2: [(1, 0), (0, 1), (1, 1), (0, 0)], 3: [(1, 0), (2, 0), (0, 0), (0, 1), (1, 1), (2, 1)]}


class Data(dict):
    def __init__(self, ds):
        super().__init__()
        self.ds = ds

    def __setitem__(self, k, v):
        if v.shape[0] != self.ds.n_cells and not (v.shape[0] == 0 and self.ds.n_cells == 0):
            raise ValueError("cell data of a wrong length")
        super().__setitem__(k, v)


class DataSet:
    def __init__(self, places, dim):
        self.places, self.dim = places, dim
        self.n_cells = len(places)
        self.cell_data = Data(self)

    def derive(self, ids, places=None):
        d = DataSet([self.places[i] for i in ids] if places is None else places, self.dim)
        idx = np.array(ids, dtype=np.int64)
        for k, v in self.cell_data.items():
            d.cell_data[k] = v[idx]
        return d

    def threshold(self, value, scalars):
        if value is not True and value is not np.True_:
            raise NotImplementedError("threshold")
        a = self.cell_data[scalars]
        return self.derive([i for i in range(self.n_cells) if a[i] >= 1])

    def extract_cells(self, ids):
        return self.derive(sorted({int(i) for i in ids}))

    def explode(self, factor):
        return self.derive(list(range(self.n_cells)))

    def _facets(self, dim):
        if self.dim != dim:
            raise NotImplementedError("facets of cells of another dimension")
        k = 2 * dim
        return self.derive([i // k for i in range(k * self.n_cells)], [(self.places[i // k], *VTK_FACETS[dim][i % k]) for i in range(k * self.n_cells)])

    def extract_all_edges(self):
        return self._facets(2)

    def extract_surface(self):
        return self._facets(3)


class Rectilinear(DataSet):
    def __init__(self, *breaks):
        self.breaks = breaks
        DataSet.__init__(self, list(range(math.prod(b.shape[0] - 1 for b in breaks))), len(breaks))


class Unstructured(DataSet):
    def __init__(self, cells, types, points):
        self.cells, self.celltypes, self.points = cells, types, points
        DataSet.__init__(self, list(range(types.shape[0])), None)


def install(H):
    import pyvista as pv
    import qugar.cpp as q
    pv.RectilinearGrid, pv.UnstructuredGrid, pv.MultiBlock = Rectilinear, Unstructured, dict
    pv.CellType = SimpleNamespace(VERTEX=1, LINE=3, QUAD=9, HEXAHEDRON=12, LAGRANGE_CURVE=68, LAGRANGE_QUADRILATERAL=70, LAGRANGE_HEXAHEDRON=72)
    for n in ("CartGridTP_2D", "CartGridTP_3D", "UnfittedDomain_2D", "UnfittedDomain_3D", "ReparamMesh_1_2", "ReparamMesh_2_2", "ReparamMesh_2_3", "ReparamMesh_3_3", "CutCellsQuad_2D", "CutCellsQuad_3D",
              "CutIsoBoundsQuad_1D", "CutIsoBoundsQuad_2D", "CutUnfBoundsQuad_2D", "CutUnfBoundsQuad_3D"):
        setattr(q, n, CLASSES.setdefault(n, type(n, (), {})))
    return q


def module(H):
    return H.mod("qugar.plot.pyvista_tools")


class CppGrid:
    def __init__(self, breaks):
        self.cell_breaks, self.dim = breaks, len(breaks)

    def get_cell_domain(self, c):
        t, i = [], int(c)
        for b in self.cell_breaks:
            n = b.shape[0] - 1
            t.append(i % n)
            i //= n
        lo = [b[k] for b, k in zip(self.cell_breaks, t)]
        hi = [b[k + 1] for b, k in zip(self.cell_breaks, t)]
        return SimpleNamespace(min_corner=self.np.array(lo), max_corner=self.np.array(hi))


class CppDomain(U.Domain):
    @property
    def dim(self):
        return self.grid.dim

    def _all(self):
        return np.array([[c, f] for c, f in sorted(self.facets)])

    def _facets(self, group, c=None, f=None):
        a = self._all()
        return U.Domain._facets(self, group, a[:, 0] if c is None else c, a[:, 1] if f is None else f)

    def get_cut_facets(self, c=None, f=None):
        return self._facets(U.IS_CUT, c, f)

    def get_full_facets(self, c=None, f=None):
        return self._facets((U.FULL,), c, f)

    def get_empty_facets(self, c=None, f=None):
        return self._facets(U.IS_EMPTY, c, f)

    def get_unf_bdry_facets(self, c=None, f=None):
        return self._facets(U.HAS_UNF, c, f)


def breaks(H, ns):
    br = []
    for d, n in enumerate(ns):
        b = H.reals(f"b{d}_", n + 1, -8, 8)
        v = H.vals(b)
        for x, y in zip(v, v[1:]):
            H.assume(x < y)
        br.append(b)
    return br


def domain(H, ns, kind, st, facets, exclude=False):
    """C++ domain, or a DOLFINx one (whose cells are renumbered) over it; -> domain, cells of the grid present, C++ domain"""
    q = install(H)
    dim = len(ns)
    if kind == "cpp":
        br = breaks(H, ns)
        cls = type("Dom", (CppDomain, getattr(q, f"UnfittedDomain_{dim}D")), {})
        gcls = type("Grid", (CppGrid, getattr(q, f"CartGridTP_{dim}D")), dict(np=H.np))
        d = cls(H, gcls(br), st, facets)
        return d, list(range(len(st))), d
    keep = U.Domain
    U.Domain = CppDomain
    try:
        m = U.build(H, ns, st, facets, exclude)
    finally:
        U.Domain = keep
    install(H)
    cpp = m.cpp_unf_domain_object
    cpp.grid = CppGrid([np.asarray(b) for b in m.cell_breaks])
    cpp.grid.np = H.np
    present = sorted(int(i) for i in (m.original_active_cells if m.has_inactive_cells else range(len(st))))
    return m, present, cpp


def local(m, kind, present):
    """original cell -> DOLFINx cell"""
    if kind == "cpp":
        return None
    return {present[int(o)]: d for d, o in enumerate(m._cpp_object.topology.original_cell_index)}


def check_ids(H, g, place, loc):
    H.check([int(v) for v in g.cell_data["Lexicographical cell ids"]] == place, "lexicographical ids of the cells")
    if loc is not None:
        H.check([int(v) for v in g.cell_data["DOLFINx local cell ids"]] == [loc[p] for p in place], "DOLFINx ids of the cells")
        H.check([int(v) for v in g.cell_data["DOLFINx global cell ids"]] == [loc[p] for p in place], "DOLFINx global ids of the cells")


def cells(H):
    """cells of the kinds asked for, with their status, at their place"""
    ns, kind = H.params["ns"], H.params["kind"]
    n = math.prod(ns)
    st = [H.int(f"s{i}", 0, 2) for i in range(n)]
    ex = kind == "mesh" and H.flag("exclude")
    if ex:
        H.assume(H.any([H.no(H.eq(s, 2)) for s in st]))
    dom, present, cpp = domain(H, ns, kind, st, {}, ex)
    m = module(H)
    which = {k: H.flag(k) for k in ("cut", "full", "empty")}
    g = m.unfitted_domain_to_PyVista(dom, **which) if not (which["cut"] and which["full"] and not which["empty"] and H.flag("defaults")) else m.unfitted_domain_to_PyVista(dom)
    truth = {p: 1 if cpp.holds(("c", p), st[p], (0,)) else 0 if cpp.holds(("c", p), st[p], (1,)) else 2 for p in present}
    want = [p for p in present if which[("full", "cut", "empty")[truth[p]]]]
    H.check(list(g.places) == want, "the cells of the kinds asked for, at their place")
    H.check([int(v) for v in g.cell_data[STATUS]] == [truth[p] for p in want], "status of each cell")
    check_ids(H, g, want, local(dom, kind, present))
    H.check(set(g.cell_data) <= {STATUS, "Lexicographical cell ids", "DOLFINx local cell ids", "DOLFINx global cell ids"}, "no auxiliary data is left")
    H.reach("end")


def facets(H):
    """facets of the kinds asked for, with their status, at their place"""
    ns, kind = H.params["ns"], H.params["kind"]
    dim, n = len(ns), math.prod(ns)
    pat = [U.FULL, U.CUT, U.EMPTY, U.FULL_EXT, U.CUT_EXT]
    st = {(c, f): pat[(3 * c + f) % 5] for c in range(n) for f in range(2 * dim)}
    for i, p in enumerate([(0, 0), (n - 1, 2 * dim - 1), (n // 2, 2)]):
        st[p] = H.int(f"f{i}", 0, 2)
    cst = [(0, 1, 2, 0)[i % 4] for i in range(n)]
    ex = kind == "mesh" and H.flag("exclude")
    dom, present, cpp = domain(H, ns, kind, cst, st, ex)
    m = module(H)
    which = {k: H.flag(k) for k in ("full", "cut", "empty")}
    g = m.unfitted_domain_facets_to_PyVista(dom, **which)
    loc = local(dom, kind, present)
    want = {}
    for j, (k, get) in enumerate(dict(full=dom.get_full_facets, cut=dom.get_cut_facets, empty=dom.get_empty_facets).items()):
        if not which[k]:
            continue
        if kind == "cpp":
            L = list(zip(*get()))
        else:
            back = {d: p for p, d in loc.items()}
            a = get()
            import basix
            top, geo = basix.topology(F.CT[dim - 1])[dim - 1], basix.geometry(F.CT[dim - 1])
            L = []
            for c, f in zip(H.vals(a.cell_ids), H.vals(a.local_facet_ids)):
                P = geo[top[int(f)]]
                d = [i for i in range(dim) if np.ptp(P[:, i]) == 0][0]
                L.append((back[int(c)], 2 * d + int(P[0, d])))
        for c, f in L:
            want[int(c), int(f) // 2, int(f) % 2] = j
    got = list(g.places)
    H.check(len(got) == len(set(got)) and set(got) == set(want), "the facets of the kinds asked for, at their place, once")
    H.check([int(v) for v in g.cell_data[FACET]] == [want[p] for p in got], "status of each facet")
    H.check([int(v) for v in g.cell_data["Lexicographical local facets ids"]] == [2 * d + s for _, d, s in got], "local index of each facet")
    if kind != "cpp":
        import basix
        top, geo = basix.topology(F.CT[dim - 1])[dim - 1], basix.geometry(F.CT[dim - 1])
        num = {}
        for i, f in enumerate(top):
            d = [k for k in range(dim) if np.ptp(geo[f][:, k]) == 0][0]
            num[d, int(geo[f][0, d])] = i
        H.check([int(v) for v in g.cell_data["DOLFINx local facets ids"]] == [num[d, s] for _, d, s in got], "local index of each facet in DOLFINx")
    H.reach("end")


def quadrature(H):
    """points of the quadratures, at their place within their cells, with their weights and normals"""
    ns, kind = H.params["ns"], H.params["kind"]
    dim, n = len(ns), math.prod(ns)
    st = [H.int(f"s{i}", 0, 2) for i in range(n)]
    fst = {(c, f): [U.FULL, U.CUT, U.UNF, U.FULL, U.EMPTY][(3 * c + f) % 5] for c in range(n) for f in range(2 * dim)}
    dom, present, cpp = domain(H, ns, kind, st, fst)
    import qugar.cpp as q
    asked, count = [], [0]

    def quad(cells, d, facets=None, normals=False):
        npts = [(H.choice(f"np{count[0]}_{i}", 0, 2) if i == 0 else (i + count[0]) % 3) for i in range(len(cells))]
        k = count[0]
        count[0] += 1
        N = sum(npts)
        x = H.reals(f"x{k}_", (N, d), 0, 1) if N else np.zeros((0, d))
        w = H.reals(f"w{k}_", N, -1, 1) if N else np.zeros(0)
        r = SimpleNamespace(points=x, weights=w, cells=np.array(cells, dtype=np.int32), n_pts_per_entity=np.array(npts, dtype=np.int32))
        if facets is not None:
            r.facets = np.array(facets, dtype=np.int32)
        if normals:
            r.normals = H.reals(f"n{k}_", (N, d), -1, 1) if N else np.zeros((0, d))
        asked.append(r)
        return r
    calls = []

    def ids(a):
        return [int(i) for i in H.vals(a)]
    q.create_quadrature = lambda D, c, p: calls.append(("cells", D, ids(c), p)) or quad(ids(c), dim)
    q.create_unfitted_bound_quadrature = lambda D, c, p, inc, exc: calls.append(("unf", D, ids(c), p, inc, exc)) or quad(ids(c), dim, normals=True)
    q.create_facets_quadrature_exterior_integral = lambda D, c, f, p: calls.append(("facets", D, ids(c), p, ids(f))) or quad(ids(c), dim - 1, facets=ids(f))
    m = module(H)
    npd = [4, 7][H.choice("n", 0, 1)]
    b = m.quadrature_to_PyVista(dom, npd) if npd != 4 or not H.flag("left") else m.quadrature_to_PyVista(dom)
    cut = [c for c in range(n) if cpp.holds(("c", c), st[c], (0,))]
    H.check(len(calls) == 4 and all(c[1] is cpp and c[3] == npd for c in calls), "quadratures of the domain, with the number of points asked for")
    kinds = {c[0]: c for c in calls}
    H.check(kinds["cells"][2] == cut and kinds["unf"][2] == cut and kinds["unf"][4] is True and kinds["unf"][5] is True, "cut cells, and the unfitted boundary within and on their facets without the external boundary")
    fc = [list(zip(c[2], c[4])) for c in calls if c[0] == "facets"]
    every = sorted(fst)
    H.check(sorted(fc) == sorted([[p for p in every if fst[p] in U.IS_CUT], [p for p in every if fst[p] in U.HAS_UNF]]), "cut facets, and facets on the unfitted boundary")
    H.check(set(b) == {"Cut cells quadrature", "Unfitted boundary quadrature", "Cut/unfitted facets quadrature"}, "three sets of points")
    loc = local(dom, kind, present)
    order = {id(r): r for r in asked}
    by = {"Cut cells quadrature": [r for r, c in zip(asked, calls) if c[0] == "cells"], "Unfitted boundary quadrature": [r for r, c in zip(asked, calls) if c[0] == "unf"], "Cut/unfitted facets quadrature": [r for r, c in zip(asked, calls) if c[0] == "facets"]}
    assert order
    for name, rs in by.items():
        g = b[name]
        if len(rs) > 1 and g.n_cells == sum(int(r.n_pts_per_entity.sum()) for r in rs):
            # either of the two sets of facets may come first
            key = [(c, f) for r in rs[::-1] for c, f, k in zip(r.cells.tolist(), r.facets.tolist(), r.n_pts_per_entity.tolist()) for _ in range(k)]
            if key == [(int(c), int(f)) for c, f in zip(H.vals(g.cell_data["Lexicographical cell ids"]), H.vals(g.cell_data["Lexicographical local facets ids"]))]:
                rs = rs[::-1]
        pos, wts, nrm, cid, fid = [], [], [], [], []
        for r in rs:
            at = 0
            for e, (c, k) in enumerate(zip(r.cells.tolist(), r.n_pts_per_entity.tolist())):
                box = cpp.grid.get_cell_domain(c)
                lo, hi = H.vals(box.min_corner), H.vals(box.max_corner)
                for i in range(at, at + k):
                    x = H.vals(r.points[i])
                    if hasattr(r, "facets"):
                        d, s = divmod(int(r.facets[e]), 2)
                        x = x[:d] + [float(s)] + x[d:]
                        fid.append(int(r.facets[e]))
                    pos.append([a + v * (z - a) for a, z, v in zip(lo, hi, x)] + [0.0] * (3 - dim))
                    wts.append(H.vals(r.weights)[i])
                    cid.append(c)
                    if hasattr(r, "normals"):
                        nrm.append(H.vals(r.normals[i]) + [0.0] * (3 - dim))
                at += k
        N = len(pos)
        H.check(g.n_cells == N and tuple(g.points.shape) == (N, 3), "every point of the quadratures, once")
        conn = [[int(v) for v in H.vals(g.cells[i])] for i in range(N)]
        H.check(conn == [[1, i] for i in range(N)] and all(int(t) == 1 for t in g.celltypes), "one vertex per point")
        check_ids(H, g, cid, loc)
        gw = H.vals(g.cell_data["Weights"])
        for i in range(N):
            P = H.vals(g.points[i])
            H.check(H.all([H.all([p - v <= 1e-9, v - p <= 1e-9]) for p, v in zip(P, pos[i])]), "points at their place")
            H.check(H.eq(gw[i], wts[i]), "weight of each point")
            if nrm:
                H.check(H.all([H.eq(a, z) for a, z in zip(H.vals(g.cell_data["Normals"][i]), nrm[i])]), "normal at each point")
        if name[0:4] == "Cut/":
            H.check([int(v) for v in g.cell_data["Lexicographical local facets ids"]] == fid, "local facet of each point")
        H.check(("Normals" in g.cell_data) == name.startswith("Unfitted"), "normals on the unfitted boundary")
    H.reach("end")


def reparam(H):
    """cells and wires of a reparameterization in VTK's order"""
    q = install(H)
    dim, gdim, p = H.params["dim"], H.params["gdim"], H.choice("degree", 1, H.params["p"])
    m = module(H)
    cls = getattr(q, f"ReparamMesh_{dim}_{gdim}")
    k, kw = (p + 1) ** dim, p + 1
    nc, nw = H.choice("cells", 0, 2), H.choice("wires", 0, 2)
    npts = k + 2
    X = H.reals("x", (npts, gdim), -8, 8)
    perm = [(5 * i + 1) % npts if npts % 5 else (7 * i + 1) % npts for i in range(npts)]
    conn = np.array([[perm[(i + c) % npts] for i in range(k)] for c in range(nc)], dtype=np.int64).reshape(nc, k)
    wires = np.array([[perm[(2 * i + 3 * c) % npts] for i in range(kw)] for c in range(nw)], dtype=np.int64).reshape(nw, kw)
    r = cls()
    r.dim, r.order, r.points, r.cells_conn, r.wirebasket_conn = dim, p + 1, X, conn, wires
    b = m.reparam_mesh_to_PyVista(r)
    H.check(set(b) == {"reparam", "wirebasket"}, "cells and wires")
    for g, cn, d in ((b["reparam"], conn, dim), (b["wirebasket"], wires, 1)):
        t = ([3, 9, 12] if p == 1 else [68, 70, 72])[d - 1]
        H.check(g.n_cells == len(cn) and all(int(v) == t for v in g.celltypes), "one cell each, of its type")
        n = (p + 1) ** d
        for c in range(len(cn)):
            row = [int(v) for v in H.vals(g.cells[c])]
            H.check(row[0] == n and len(row) == n + 1, "number of nodes of each cell")
            for i in range(n):
                ijk = [i // (p + 1) ** a % (p + 1) for a in range(d)]
                H.check(row[1 + int(h_tp._vtk(H, ijk, p))] == int(cn[c][i]), "nodes in VTK's order")
        H.check(tuple(g.points.shape) == (npts, 3), "the points, in space")
        for i in range(npts):
            v, x = H.vals(g.points[i]), H.vals(X[i])
            H.check(H.all([H.eq(a, z) for a, z in zip(v, x + [0.0] * (3 - gdim))]), "coordinates of the points")
    H.reach("end")
