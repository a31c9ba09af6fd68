"""facet sets: algebra over (cell, local facet) pairs"""
import numpy as np


def _mk(H, MF, n, tag, dt, unique=False, wide=True):
    c = H.ints(tag + "c", n, 0, (3 if not wide else 2 ** 31 - 1 if dt == np.int32 else 2 ** 40), dt)
    f = H.ints(tag + "f", n, 0, 5, np.int32)
    m = MF(c, f)
    rows = list(zip(H.vals(c), H.vals(f)))
    if unique:
        for i in range(n):
            for j in range(i):
                H.assume(H.no(H.all([H.eq(rows[i][0], rows[j][0]), H.eq(rows[i][1], rows[j][1])])))
    return m, rows


def _rows(H, m):
    c, f = H.vals(m.cell_ids), H.vals(m.local_facet_ids)
    H.check(len(c) == len(f), "as many cells as local facets")
    return list(zip(c, f))


def _eq(H, a, b):
    return H.all([H.eq(a[0], b[0]), H.eq(a[1], b[1])])


def _in(H, r, rows):
    return H.any([_eq(H, r, s) for s in rows])


def _lt(H, a, b):
    return H.any([a[0] < b[0], H.all([H.eq(a[0], b[0]), a[1] < b[1]])])


def algebra(H):
    MF = H.mod("qugar.mesh.mesh_facets").MeshFacets
    dt = [np.int32, np.int64][H.params.get("dt", 0)]
    na, nb = H.choice("na", 0, H.params["n"]), H.choice("nb", 0, H.params["n"])
    a, ra = _mk(H, MF, na, "a", dt)
    b, rb = _mk(H, MF, nb, "b", dt)
    op = H.params["op"]
    if op == "intersect":
        r = _rows(H, a.intersect(b))
        for x in r:
            H.check(H.all([_in(H, x, ra), _in(H, x, rb)]), "every facet of the intersection is in both sets")
        for x in ra:
            H.check(H.implies(_in(H, x, rb), _in(H, x, r)), "every common facet is in the intersection")
    elif op == "difference":
        r = _rows(H, a.difference(b))
        for x in r:
            H.check(H.all([_in(H, x, ra), H.no(_in(H, x, rb))]), "every facet of the difference is in the first set only")
        for x in ra:
            H.check(H.any([_in(H, x, rb), _in(H, x, r)]), "every facet of the first set only is in the difference")
    elif op == "unique":
        u = MF(a.cell_ids.copy(), a.local_facet_ids.copy())
        u.unique()
        r = _rows(H, u)
        for x in r:
            H.check(_in(H, x, ra), "no facet is invented")
        for x in ra:
            H.check(_in(H, x, r), "no facet is lost")
    elif op == "concatenate":
        r = _rows(H, a.concatenate(b))
        H.check(len(r) == na + nb, "size of a concatenation")
        for x, y in zip(r, ra + rb):
            H.check(_eq(H, x, y), "a concatenation keeps the facets in order")
        flat = H.vals(a.as_array())
        H.check(len(flat) == 2 * na and a.size == na and a.empty == (na == 0), "size of the interleaved array")
        for i in range(na):
            H.check(_eq(H, (flat[2 * i], flat[2 * i + 1]), ra[i]), "interleaved array")
            H.check(_eq(H, a[i], ra[i]), "item access")
        r = None
    if r is not None and op != "concatenate":
        for x, y in zip(r, r[1:]):
            H.check(_lt(H, x, y), "results are sorted and free of repetitions")
        res_dt = (a.intersect(b) if op == "intersect" else a.difference(b) if op == "difference" else u)
        H.check(res_dt.cells_dtype == np.dtype(dt), "the type of the cell ids is kept")
        H.check(res_dt.local_facet_ids.dtype == np.dtype(np.int32), "the type of the local facet ids is kept")
    H.reach("end")


def find(H):
    MF = H.mod("qugar.mesh.mesh_facets").MeshFacets
    na, nb = H.choice("na", 0, H.params["n"]), H.choice("nb", 0, 2)
    a, ra = _mk(H, MF, na, "a", np.int32, unique=True)
    b, rb = _mk(H, MF, nb, "b", np.int32)
    e, r = H.raises(lambda: a.find(b))
    allin = H.all([_in(H, x, ra) for x in rb])
    if e is not None:
        H.check(isinstance(e, ValueError), "missing facets are reported with a value error")
        H.check(H.no(allin), "an error is raised only if a facet is missing")
    else:
        H.check(allin, "missing facets are reported")
        v = H.vals(r)
        H.check(len(v) == nb, "one position per facet")
        for i in range(nb):
            H.check(H.all([v[i] >= 0, v[i] < na]), "positions are valid")
            H.check(H.any([H.all([H.eq(v[i], j), _eq(H, ra[j], rb[i])]) for j in range(na)]), "the facet at the position is the one searched")
    H.reach("end" if e is None else "missing")


def _lex(dim):
    """lexicographic face of each face of the reference cell"""
    import basix
    import fake_dolfinx as F
    out = []
    for f in basix.topology(F.CT[dim - 1])[dim - 1]:
        for d in range(dim):
            s = {(v >> d) & 1 for v in f}
            if len(s) == 1:
                out.append(2 * d + s.pop())
    return out


def numbering(H):
    """facets between the original and DOLFINx's numbering"""
    import h_mesh
    dim = H.params["dim"]
    ns = h_mesh.sizes(H, dim, H.params["sizes"])
    m = h_mesh.cart(H, ns)
    MF = H.mod("qugar.mesh.mesh_facets").MeshFacets
    top = m._cpp_object.topology
    lex, n = _lex(dim), len(top.c2f)
    c = H.ints("c", 2, 0, n - 1, np.int32)
    f = H.ints("f", 2, 0, 2 * dim - 1, np.int32)
    a = MF(c, f)
    o = a.to_original(m)
    oc, of = H.vals(o.cell_ids), H.vals(o.local_facet_ids)
    H.check(o.cells_dtype == np.dtype(np.int64) and o.local_facet_ids.dtype == np.dtype(np.int32), "types in the original numbering")
    for x, y, u, v in zip(H.vals(c), H.vals(f), oc, of):
        H.check(H.all([H.implies(H.eq(x, i), H.eq(u, int(top.original_cell_index[i]))) for i in range(n)]), "cell in the original numbering")
        H.check(H.all([H.implies(H.eq(y, j), H.eq(v, lex[j])) for j in range(2 * dim)]), "lexicographic local facet")
    b = o.to_DOLFINx(m)
    H.check(b.cells_dtype == np.dtype(np.int32), "type in DOLFINx's numbering")
    H.check(H.all([H.eq(x, y) for x, y in zip(H.vals(c) + H.vals(f), H.vals(b.cell_ids) + H.vals(b.local_facet_ids))]), "back to DOLFINx's numbering")
    for x, y, g in zip(H.vals(c), H.vals(f), H.vals(a.get_facet_ids(m))):
        H.check(H.all([H.implies(H.all([H.eq(x, i), H.eq(y, j)]), H.eq(g, top.c2f[i][j])) for i in range(n) for j in range(2 * dim)]), "facet id of a pair")
    H.reach("end")


def listing(H):
    """facets of a mesh as pairs; sel is an arbitrary list of facet ids"""
    import h_mesh
    dim = H.params["dim"]
    ns = h_mesh.sizes(H, dim, H.params["sizes"])
    m = h_mesh.cart(H, ns)
    M = H.mod("qugar.mesh.mesh_facets")
    top = m._cpp_object.topology
    nf = len(top.f2c)
    both = sorted((c, j) for c, row in enumerate(top.c2f) for j in range(len(row)))
    ext = [p for p in both if len(top.f2c[top.c2f[p[0]][p[1]]]) == 1]
    inn = [p for p in both if p not in ext]

    def got(x):
        return [(int(a), int(b)) for a, b in zip(H.vals(x.cell_ids), H.vals(x.local_facet_ids))]

    def once(pairs, ids):
        return sorted(top.c2f[a][b] for a, b in pairs) == sorted(ids)
    H.check(sorted(got(M.create_exterior_mesh_facets(m))) == ext, "exterior facets")
    H.check(sorted(got(M.create_interior_mesh_facets(m))) == inn, "interior facets, from both sides")
    H.check(sorted(got(M.create_all_mesh_facets(m))) == both, "all facets, the interior ones from both sides")
    one = got(M.create_interior_mesh_facets(m, single_interior_facet=True))
    H.check(once(one, [f for f in range(nf) if len(top.f2c[f]) == 2]), "interior facets, each one once")
    H.check(once(got(M.create_all_mesh_facets(m, True)), range(nf)), "all facets, each one once")
    k = H.choice("k", 0, H.params["k"])
    sel = [H.choice(f"s{i}", 0, nf - 1) for i in range(k)]
    single = H.flag("single")
    r = got(M.create_facets_from_ids(m, np.array(sel, dtype=np.int32), single))
    want = [(c, top.c2f[c].index(f)) for f in sel for c in (top.f2c[f][:1] if single else top.f2c[f])]
    H.check(r == want, "pairs of the facets listed, in order")
    H.reach("end")
