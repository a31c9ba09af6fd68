"""coefficients of custom integrals: what the generated kernels find in them"""
from types import SimpleNamespace

import numpy as np

import h_fq

FULL, CUT, EMPTY = 0, 1, 2
CELLS = [5, 2, 9]
EXT = [(5, 1), (2, 1), (5, 2)]
INT = [((5, 1), (2, 0)), ((9, 1), (5, 0)), ((2, 1), (9, 2))]


class IT:
    """stands for the enumeration of the types of integrals"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


TYPES = SimpleNamespace(**{n: IT(n) for n in ("cell", "exterior_facet", "interior_facet", "vertex", "ridge")})


class Quads:
    """an unfitted domain with arbitrary statuses and quadratures"""
    def __init__(self, H, td, npts, mf, cq, status, dt):
        self.H, self.td, self.npts, self.mf, self.cq, self.status, self.dt = H, td, npts, mf, cq, status, dt
        self.asked, self.data = [], {}

    def _ids(self, which, extra):
        return sorted([k for k, s in self.status.items() if s == which] + extra)

    def get_cut_cells(self):
        return np.array(self._ids(CUT, [4]), dtype=np.int32)

    def get_full_cells(self):
        return np.array(self._ids(FULL, [7]), dtype=np.int32)

    def get_empty_cells(self):
        return np.array(self._ids(EMPTY, [3]), dtype=np.int32)

    def _facets(self, which, extra, ext):
        assert bool(ext) == (self.ext is True)
        p = self._ids(which, extra)
        return self.mf(np.array([a for a, _ in p], dtype=np.int32), np.array([b for _, b in p], dtype=np.int32))

    # pairs made of cells and facets that appear, but not together
    def get_cut_facets(self, ext_integral=True):
        return self._facets(CUT, [(9, 3)] if self.ext else [(5, 3), (9, 3)], ext_integral)

    def get_full_facets(self, ext_integral=True):
        return self._facets(FULL, [], ext_integral)

    def get_empty_facets(self, ext_integral=True):
        return self._facets(EMPTY, [(2, 3)] if self.ext else [(2, 3)], ext_integral)

    def quad(self, kind, degree, key, dim):
        """number of points, points, weights and normals of an entity"""
        k = (kind, degree, key)
        if k not in self.data:
            name = f"{kind}{degree}_" + "_".join(str(x) for x in (key if isinstance(key, tuple) else (key,)))
            lo, hi = self.npts
            n = H_choice(self.H, name + "n", lo, hi)
            r = self.H.real
            self.data[k] = (n, [[r(f"{name}x{i}{j}") for j in range(dim)] for i in range(n)], [r(f"{name}w{i}") for i in range(n)],
                            [[r(f"{name}m{i}{j}") for j in range(dim)] for i in range(n)])
        return self.data[k]

    def _arrays(self, kind, degree, keys, dim):
        H = self.H
        q = [self.quad(kind, degree, k, dim) for k in keys]
        n = np.array([x[0] for x in q], dtype=np.int32)
        t = int(n.sum())
        a = [H.np.array(sum((x[k] for x in q), []), dtype=self.dt) for k in (1, 2, 3)]
        return n, a[0].reshape(t, dim), a[1].reshape(t), a[2].reshape(t, dim)

    def create_quad_custom_cells(self, degree, cells):
        n, x, w, _ = self._arrays("c", degree, [int(c) for c in self.H.vals(cells)], self.td)
        return self.cq.CustomQuad(cells, n, x, w)

    def create_quad_unf_boundaries(self, degree, cells):
        n, x, w, m = self._arrays("u", degree, [int(c) for c in self.H.vals(cells)], self.td)
        return self.cq.CustomQuadUnfBoundary(cells, n, x, w, m)

    def create_quad_custom_facets(self, degree, facets, ext_integral=True):
        assert bool(ext_integral) == (self.ext is True)
        keys = [(int(a), int(b)) for a, b in zip(self.H.vals(facets.cell_ids), self.H.vals(facets.local_facet_ids))]
        n, x, w, _ = self._arrays("f", degree, keys, self.td - 1)
        return self.cq.CustomQuadFacet(facets, n, x, w)


def H_choice(H, name, lo, hi):
    return lo if lo == hi else H.choice(name, lo, hi)


def make(H, itype, td, dt, n, npts, status=None):
    h_fq.install()
    import dolfinx.cpp.fem as fem
    fem._IntegralType = TYPES
    cc = H.mod("qugar.dolfinx.custom_coefficients")
    mf = H.mod("qugar.mesh.mesh_facets").MeshFacets
    cq = H.mod("qugar.quad.custom_quad")
    ents = {"cell": CELLS, "exterior_facet": EXT, "interior_facet": INT}[itype][:n]
    st = [H.choice(f"s{i}", 0, 2) for i in range(n)]
    keys = {}
    for e, s in zip(ents, st):
        for k in (e if itype == "interior_facet" else [e]):
            keys[k] = s
    # the other facet pairs built from the same cells are full
    dom = Quads(H, td, npts, mf, cq, keys, dt)
    dom.ext = itype == "exterior_facet"
    shape = {"cell": (n,), "exterior_facet": (n, 2), "interior_facet": (n, 2, 2)}[itype]
    domain = np.array(ents, dtype=np.int32).reshape(shape)
    return cc, fem, dom, ents, st, domain


def old(H, itype, n, cols, dt, tag):
    """what DOLFINx packs: one row per cell or exterior facet, two per interior facet, none without coefficients"""
    rows = 0 if cols == 0 else n * (2 if itype == "interior_facet" else 1)
    cpx = np.dtype(dt).kind == "c"
    v = []
    for i in range(rows * cols):
        v.append(H.real(f"{tag}{i}") if not cpx else H.complex(H.real(f"{tag}{i}"), H.real(f"{tag}{i}i")))
    return v, H.np.array(v, dtype=dt).reshape(rows, cols)


def pack(H):
    P = H.params
    itype, td, cdt, cols, n = P["type"], P["td"], np.dtype(P["dtype"]), P["cols"], P["n"]
    rdt = np.dtype({"float32": "float32", "complex64": "float32"}.get(cdt.name, "float64"))
    quads = P["quads"]           # list of [degree, unfitted]
    mixed = bool(P.get("mixed"))
    cc, fem, dom, ents, st, domain = make(H, itype, td, rdt, n, P["npts"])
    qd_cls = H.mod("qugar.dolfinx.quadrature_data").QuadratureData
    id_cls = H.mod("qugar.dolfinx.integral_data").IntegralData
    tables = {qd_cls(f"q{i}", d, bool(u), f"r{i}"): [SimpleNamespace(dtype=rdt.type)] for i, (d, u) in enumerate(quads)}
    data = id_cls("itg", [3], itype, td, mixed, tables)
    cell = {2: "quadrilateral", 3: "hexahedron"}[td] if not P.get("simplex") else {2: "triangle", 3: "tetrahedron"}[td]
    fc, nf = h_fq.FACET[cell], h_fq.NFACETS[cell]
    table = [[(2 * c + 3 * f + 1) % h_fq.NPERM[fc] for f in range(nf)] for c in range(10)]
    mesh = SimpleNamespace(topology=h_fq.Topology(cell, np.array(sum(table, []), dtype=np.uint8)))
    key = (getattr(fem._IntegralType, itype), 0)
    oldv, olda = old(H, itype, n, cols, cdt, "o")
    packed = [{key: olda}]
    fem.pack_coefficients = lambda f: packed[-1]
    types = ("cell", "exterior_facet", "interior_facet", "vertex", "ridge")
    offs = [sum(1 for t in types[:i] if t == itype) for i in range(6)]
    form = SimpleNamespace(_cpp_object=SimpleNamespace(domains=lambda t, i: domain if (t, i) == key else None, mesh=mesh), _ufcx_form=SimpleNamespace(form_integral_offsets=offs, form_integral_ids=[3]))
    packer = cc.CustomCoeffsPacker(form, dom, [data])
    res = packer.pack_coefficients()
    H.check(list(res) == [key], "one array per integral")
    new = res[key]

    interior = itype == "interior_facet"
    per = 2 if interior else 1
    ratio = cdt.itemsize // rdt.itemsize
    e = -(-8 // cdt.itemsize)

    def verify(a, oldv, what):
        H.check(a.dtype == cdt and len(a.shape) == 2 and a.shape[1] >= 1 and a.shape[0] >= n * per, "array of the type of the coefficients" + what)
        flat = a.reshape(-1)
        if flat.shape[0] == 0:
            return
        raw = flat.view(rdt)
        stride = per * a.shape[1]
        ok = []
        for i in range(n):
            w = i * stride
            w0 = per * cols          # standard coefficients of the entity
            ok += [H.eq(flat[w + k], oldv[i * w0 + k]) for k in range(w0)]
            off = flat[w + w0:w + w0 + e].view(np.intp)[0]
            if H.opaque(off):
                H.check(False, "the offset of the custom data follows the coefficients of the entity" + what)
                return
            if st[i] == FULL:
                H.check(off < 0, "full entities use the original kernel" + what)
                continue
            if st[i] == EMPTY:
                H.check(off == 0, "empty entities are skipped" + what)
                continue
            H.check(off > 0, "cut entities use the custom kernel" + what)
            p = w * ratio + int(off)
            lo = n * stride * ratio
            want = []
            for deg, unf in quads:
                if itype == "cell":
                    npt, X, W, M = dom.quad("u" if unf else "c", deg, ents[i], td)
                    want.append(npt)
                    want += sum(X, []) + W + (sum(M, []) if unf else [])
                else:
                    first = ents[i][0] if interior else ents[i]
                    npt, X, W, _ = dom.quad("f", deg, first, td - 1)
                    want.append(npt)
                    for c, f in (ents[i] if interior else [ents[i]]):
                        pts = [h_fq.permuted(fc, x, table[c][f]) for x in X] if interior or mixed else X
                        want += sum((h_fq.mapped(cell, f, x) for x in pts), [])
                    if mixed:
                        want += sum(X, [])
                    want += W
            H.check(p >= lo and p + len(want) <= raw.shape[0], "custom data lie after all the coefficients, inside the array" + what)
            ok += [H.eq(raw[p + k], v) for k, v in enumerate(want)]
        H.check(H.all(ok), "coefficients and custom data of each entity" + what)
    verify(new, oldv, "")
    if P.get("update"):
        v2, a2 = old(H, itype, n, cols, cdt, "n")
        packed.append({key: a2})
        res2 = packer.update_coefficients(res)
        H.check(list(res2) == [key] and res2[key] is new, "the array given is updated")
        verify(res2[key], v2, " after the update")
    H.reach("end")


def positions(H):
    """each integral is packed with its own data: type and position of its identifier"""
    cc, fem, dom, ents, st, domain = make(H, "cell", 2, np.dtype(np.float64), 1, (1, 1))
    types = ("cell", "exterior_facet", "interior_facet", "vertex", "ridge")
    counts = [H.choice(f"k{i}", 0, H.params["k"]) for i in range(3)] + [H.choice("kv", 0, 1), 0]
    ids, offs, datas, where = [], [0], [], {}
    id_cls = H.mod("qugar.dolfinx.integral_data").IntegralData
    pool = [-1, 4, 7][:max(H.params["k"], 1)]
    for t, c in zip(types, counts):
        s = H.choice("rev" + t, 0, 1) if c > 1 else 0
        mine = pool[:c][::-1] if s else pool[:c]
        ids += mine
        offs.append(len(ids))
        if t not in ("vertex", "ridge"):
            share = H.flag("share" + t) if c > 1 else False
            for j, x in enumerate(mine):
                if share and j < 2:
                    if j == 0:
                        datas.append(id_cls(f"{t}01", list(mine[:2]), t, 2, False, {}))
                    where[t, j] = next(d for d in datas if d.name == f"{t}01")
                else:
                    datas.append(id_cls(f"{t}{j}", [x], t, 2, False, {}))
                    where[t, j] = datas[-1]
    if H.flag("back"):
        datas = datas[::-1]
    seen = {}
    form = SimpleNamespace(_cpp_object=SimpleNamespace(mesh=None), _ufcx_form=SimpleNamespace(form_integral_offsets=offs, form_integral_ids=ids))
    fem.pack_coefficients = lambda f: {(getattr(fem._IntegralType, t), j): ("old", t, j) for (t, j) in where}
    cc._compute_custom_coeffs = lambda f, d, data, info, olds: seen.setdefault(info, (data, olds)) and ("new", data.name, info[1])
    got = cc.CustomCoeffsPacker(form, dom, datas).pack_coefficients()
    H.check(len(got) == len(where) and all(seen[getattr(fem._IntegralType, t), j][0] is d and seen[getattr(fem._IntegralType, t), j][1] == ("old", t, j) for (t, j), d in where.items()), "each integral uses its own data")
    H.reach("end")
