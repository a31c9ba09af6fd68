"""meshes: Cartesian meshes, numbering between the original and DOLFINx's, boundary facets"""
import math

import numpy as np

import fake_dolfinx as F


def perm(H, tag, n):
    """arbitrary permutation, one path each"""
    left, out = list(range(n)), []
    for i in range(n):
        out.append(left.pop(H.choice(f"{tag}{i}", 0, len(left) - 1)) if len(left) > 1 else left.pop())
    return out


def cart(H, ns, degree=1, active=None, breaks=None, dtype=np.float64, perm_tag="perm", scramble=True):
    """the mesh, built by the real constructors; cells renumbered arbitrarily (or by a fixed shuffle)"""
    F.install(H)
    tp = H.mod("qugar.mesh.tp_mesh")
    if breaks is None:
        breaks = [np.linspace(0.0, 1.0, n + 1) for n in ns]
    F.Cfg.cell_perm = (lambda n: perm(H, perm_tag, n)) if scramble == "all" else (lambda n: [(3 * i + 1) % n if n % 3 else (i + 1) % n for i in range(n)] if scramble else list(range(n)))
    F.Cfg.node_perm = lambda n: list(range(n))[::-1]
    return tp.CartesianMesh(F.Comm(), F.Grid(breaks), degree, active, dtype=dtype)


def sizes(H, dim, hi):
    return [H.choice(f"n{d}", 1, hi[d]) for d in range(dim)]


def flat(t, ns):
    r, m = 0, 1
    for a, n in zip(t, ns):
        r, m = r + a * m, m * n
    return r


def unflat(i, ns):
    out = []
    for n in ns:
        out.append(i % n)
        i //= n
    return out


def nodes(H):
    """coordinates and connectivity of Cartesian meshes: node x of cell c is where basix puts it within the cell's box"""
    import basix
    dim, p = H.params["dim"], H.choice("p", 1, H.params["p"])
    dtype = [np.float64, np.float32][H.params.get("f32", 0)]
    ns = sizes(H, dim, H.params["n"])
    tp = (F.install(H), H.mod("qugar.mesh.tp_mesh"))[1]
    br = [H.reals(f"b{d}_", n + 1, -8, 8, dtype) for d, n in enumerate(ns)]
    n_cells = H.np.array(ns, dtype=np.int32)
    x = tp._create_Cartesian_mesh_nodes_from_cells(br, p)
    conn = tp._create_tensor_prod_mesh_conn(dim, p, n_cells)
    npts = [n * p + 1 for n in ns]
    H.check(tuple(x.shape) == (math.prod(npts), dim) and x.dtype == np.dtype(dtype), "one row of coordinates per node, of the type of the breaks")
    H.check(tuple(conn.shape) == (math.prod(ns), (p + 1) ** dim), "one row of the connectivity per cell")
    pts = basix.create_element(basix.ElementFamily.P, F.CT[dim - 1], p, basix.LagrangeVariant.equispaced).points
    lat = np.rint(pts * p).astype(int)
    c, k = H.choice("c", 0, math.prod(ns) - 1), H.choice("k", 0, (p + 1) ** dim - 1)
    t = unflat(c, ns)
    node = int(H.vals(conn[c])[k])
    H.check(node == flat([t[d] * p + int(lat[k][d]) for d in range(dim)], npts), "nodes of a cell, shared with its neighbours")
    X = H.vals(x[node])
    for d in range(dim):
        b = H.vals(br[d])
        a, z, w = b[t[d]], b[t[d] + 1], int(lat[k][d])
        want = a if w == 0 else z if w == p else None
        if want is not None:
            H.check(H.eq(X[d], want), "corner nodes lie on the breaks")
        else:
            e = X[d] * p - (a * (p - w) + z * w)
            tol = 1e-3 if dtype == np.float32 else 1e-9
            H.check(H.all([e <= tol, e >= -tol]), "inner nodes are equally spaced")
    H.reach("end")


def cells(H):
    """original <-> DOLFINx cell ids, arbitrary renumbering, with or without inactive cells"""
    n = H.params["n"]
    tot = n + H.params["inactive"]
    ns = [tot, 1]
    active = None
    if H.params["inactive"]:
        drop = H.choice("drop", 0, tot - 1)
        rest = [i for i in range(tot) if i != drop]
        active = np.array([rest[i] for i in perm(H, "act", n)] if H.params["shuffle"] else rest, dtype=np.int64)
    m = cart(H, ns, active=active, scramble="all")
    orig = [int(i) for i in (active if active is not None else range(tot))]
    top = m._cpp_object.topology
    truth = [orig[int(i)] for i in top.original_cell_index]          # DOLFINx cell -> original cell
    H.check(m.has_inactive_cells == (active is not None), "inactive cells are noticed")
    q = H.ints("q", H.params.get("nq", 1), -1, tot, np.int64)
    got = H.vals(m.get_DOLFINx_local_cell_ids(q))
    for a, g in zip(H.vals(q), got):
        H.check(H.all([H.implies(H.eq(a, o), H.eq(g, d)) for d, o in enumerate(truth)]), "DOLFINx id of an original cell")
        H.check(H.implies(H.no(H.member(a, truth)), H.eq(g, -1)), "cells that are not in the mesh have no DOLFINx id")
    r = H.ints("r", 2, 0, n - 1, np.int32)
    got = H.vals(m.get_original_cell_ids(r))
    for a, g in zip(H.vals(r), got):
        H.check(H.all([H.implies(H.eq(a, d), H.eq(g, o)) for d, o in enumerate(truth)]), "original id of a DOLFINx cell")
    H.check([int(v) for v in H.vals(m.get_all_original_cell_ids())] == truth, "original ids of all the cells")
    H.check(int(m.num_local_cells) == n and int(m.num_global_cells) == n and int(m.num_cells_tp) == tot, "numbers of cells")
    H.reach("end")


def nodes_ids(H):
    F.install(H)
    M = H.mod("qugar.mesh.mesh")
    n = H.params["n"]
    F.Cfg.node_perm = lambda k: perm(H, "np", k)
    x = np.array([[0.25 * i * i, 0.0] for i in range(n)])
    conn = np.array([[i, i + 1] for i in range(n - 1)], dtype=np.int64)
    m = M.Mesh(F.Comm(), x, conn, F.CT[0], 1)
    truth = [int(v) for v in m.geometry.input_global_indices]
    if H.params["merged"]:
        # a map of merged nodes onto the n kept ones: every kept node is the image of some original node
        extra = H.ints("m", 2, 0, n - 1, np.int64)
        order = [int(v) for v in H.vals(extra)] if not H.sym else H.vals(extra)
        vals = [order[0]] + list(range(n)) + [order[1]]
        m._merged_nodes_map = H.array(vals, np.int64)
        old_n = n + 2
    else:
        vals, old_n = list(range(n)), n
    q = H.int("q", 0, old_n - 1)
    got = H.vals(m.get_DOLFINx_local_node_ids(H.array([q], np.int64)))[0]
    H.check(H.all([H.implies(H.all([H.eq(q, o), H.eq(vals[o], k)]), H.eq(got, d)) for o in range(old_n) for d, k in enumerate(truth)]), "DOLFINx id of an original node")
    r = H.int("r", 0, n - 1)
    back = H.vals(m.get_original_node_ids(H.array([r], np.int32)))[0]
    H.check(H.all([back >= 0, back < old_n]), "original node ids in range")
    H.check(H.all([H.implies(H.all([H.eq(back, o), H.eq(r, d)]), H.eq(vals[o], k)) for o in range(old_n) for d, k in enumerate(truth)]), "original id of a DOLFINx node")
    H.reach("end")


def merge(H):
    """coincident nodes are merged; others kept; the connectivity follows"""
    F.install(H)
    F.fake_scipy(H)
    M = H.mod("qugar.mesh.mesh")
    n = H.params["n"]
    x = H.reals("x", (n, 1), -4, 4)
    conn = np.array([[i, (i + 1) % n] for i in range(n)], dtype=np.int64)
    v = H.vals(x)
    tol = 0.125
    for i in range(n):       # points either coincide up to much less than the tolerance or are well separated
        for j in range(i):
            d = v[i] - v[j]
            H.assume(H.any([H.all([d <= 0.03, d >= -0.03]), d >= 0.5, d <= -0.5]))
    new_x, new_conn, old_to_new = M._merge_coincident_points_in_mesh(x, conn, tol)
    nx, o2n = H.vals(new_x), [int(a) for a in H.vals(old_to_new)]
    H.check(len(o2n) == n and all(0 <= a < len(nx) for a in o2n), "every node has a new id")
    H.check(set(o2n) == set(range(len(nx))), "every new node comes from an old one")
    for i in range(n):
        d = nx[o2n[i]] - v[i]
        H.check(H.all([d <= tol, d >= -tol]), "a node is merged only into a coincident one")
        for j in range(i):
            d = v[i] - v[j]
            same = H.all([d <= 0.03, d >= -0.03])
            H.check(H.iff(same, o2n[i] == o2n[j]), "coincident nodes, and only those, are merged")
    nc = H.vals(new_conn)
    H.check([int(a) for a in nc] == [o2n[i] for r in conn for i in r], "the connectivity refers to the merged nodes")
    H.reach("end")


def facets(H):
    """faces of the tensor-product mesh: cells, facets, tags"""
    dim = H.params["dim"]
    ns = sizes(H, dim, H.params["n"])
    tot = math.prod(ns)
    active = None
    if H.params["inactive"] and tot > 1:
        drop = H.choice("drop", 0, tot - 1)
        active = np.array([i for i in range(tot) if i != drop], dtype=np.int64)
    m = cart(H, ns, active=active)
    orig = [int(i) for i in (active if active is not None else range(tot))]
    top = m._cpp_object.topology
    truth = [orig[int(i)] for i in top.original_cell_index]
    # facets of the mesh lying on each side of the box
    import basix
    faces = basix.topology(F.CT[dim - 1])[dim - 1]
    lex = []
    for f in faces:
        for d in range(dim):
            s = {(v >> d) & 1 for v in f}
            if len(s) == 1:
                lex.append(2 * d + s.pop())
    want = {}
    for c, o in enumerate(truth):
        t = unflat(o, ns)
        for j, f in enumerate(lex):
            if t[f // 2] == (f % 2) * (ns[f // 2] - 1):
                want.setdefault(f, []).append((c, top.c2f[c][j]))
    f = H.choice("f", 0, 2 * dim - 1)
    H.check([int(a) for a in H.vals(m.get_face_DOLFINx_cells(f))] == sorted({c for c, _ in want.get(f, [])}), "cells touching a face")
    H.check([int(a) for a in H.vals(m.get_face_facets(f))] == sorted({x for _, x in want.get(f, [])}), "facets of a face")
    tags = m.create_facet_bdry_tags()
    got = sorted((int(a), int(b)) for a, b in zip(H.vals(tags.indices), H.vals(tags.values)))
    H.check(got == sorted((x, g) for g, l in want.items() for _, x in l), "every boundary facet is tagged with its face")
    ind = [int(a) for a in H.vals(tags.indices)]
    H.check(ind == sorted(ind) and tags.dim == dim - 1, "tags are sorted by facet")
    c = H.choice("c", 0, len(truth) - 1)
    H.check([int(a) for a in H.vals(m.get_cell_facets(np.int32(c)))] == top.c2f[c], "facets of a cell")
    H.reach("end")


def boxes(H):
    """tensor index and bounding box of a cell; the mesh created from its two corners"""
    dim = H.params["dim"]
    ns = sizes(H, dim, H.params["n"])
    F.install(H)
    tp = H.mod("qugar.mesh.tp_mesh")
    dtype = [np.float64, np.float32][H.params.get("f32", 0)]
    F.Cfg.cell_perm = lambda n: [(3 * i + 1) % n if n % 3 else (i + 1) % n for i in range(n)]
    lo, hi = H.reals("lo", dim, -8, 8, dtype), H.reals("hi", dim, -8, 8, dtype)
    for a, b in zip(H.vals(lo), H.vals(hi)):
        H.assume(a < b)
    p = H.choice("p", 1, 2)
    m = tp.create_Cartesian_mesh(F.Comm(), ns, lo, hi, p)
    H.check(not m.has_inactive_cells and m.degree == p and m.dtype == np.dtype(dtype), "all the cells, the degree and the type requested")
    H.check([int(a) for a in H.vals(m.num_cells_dir)] == ns and [int(a) for a in H.vals(m.num_pts_dir)] == [n * p + 1 for n in ns], "sizes per direction")
    top = m._cpp_object.topology
    c = H.choice("c", 0, math.prod(ns) - 1)
    t = unflat(int(top.original_cell_index[c]), ns)
    H.check([int(a) for a in H.vals(m.get_cell_tensor_index(np.int32(c)))] == t, "tensor index of a cell")
    bb = H.vals(m.get_cell_bbox(np.int32(c)))
    L, U = H.vals(lo), H.vals(hi)
    tol = 1e-3 if dtype == np.float32 else 1e-9
    for d in range(dim):
        for s in (0, 1):
            e = bb[s * dim + d] * ns[d] - (L[d] * (ns[d] - t[d] - s) + U[d] * (t[d] + s))
            H.check(H.all([e <= tol, e >= -tol]), "bounding box of a cell")
    H.reach("end")


def graded(H):
    """bounding boxes and nodes of the cells of a grid with arbitrary increasing breaks"""
    dim = H.params["dim"]
    ns = sizes(H, dim, H.params["n"])
    br = [H.reals(f"b{d}_", n + 1, -8, 8) for d, n in enumerate(ns)]
    p = H.choice("p", 1, H.params["p"])
    for b in br:
        v = H.vals(b)
        for x, y in zip(v, v[1:]):
            H.assume(x < y)
    m = cart(H, ns, p, breaks=br)
    top = m._cpp_object.topology
    c = H.choice("c", 0, math.prod(ns) - 1)
    t = unflat(int(top.original_cell_index[c]), ns)
    bb = H.vals(m.get_cell_bbox(np.int32(c)))
    for d in range(dim):
        v = H.vals(br[d])
        H.check(H.all([H.eq(bb[d], v[t[d]]), H.eq(bb[dim + d], v[t[d] + 1])]), "the box of a cell goes from a break to the next one")
        H.check(H.all([H.eq(a, b) for a, b in zip(H.vals(m.cell_breaks[d]), v)]), "breaks of the mesh")
    H.reach("end")


def variant(H, kw):
    """nodes of the element requested from basix.ufl (its default variant is the one of the warped GLL points)"""
    import basix
    v = kw.get("lagrange_variant")
    v = basix.LagrangeVariant.gll_warped if v is None or int(v) == int(basix.LagrangeVariant.unset) else v
    return v


def affine(H):
    """the geometry map of the cells of a Cartesian mesh, evaluated with the real basix, is affine"""
    import basix
    dim = H.params["dim"]
    F.install(H)
    tp = H.mod("qugar.mesh.tp_mesh")
    dtype = [np.float64, np.float32][H.params.get("f32", 0)]
    ns = sizes(H, dim, H.params["n"])
    p = H.choice("p", 1, H.params["p"])
    F.Cfg.cell_perm = lambda n: [(3 * i + 1) % n if n % 3 else (i + 1) % n for i in range(n)]
    F.Cfg.node_perm = lambda n: list(range(n))[::-1]
    lo, hi = H.reals("lo", dim, -8, 8, dtype), H.reals("hi", dim, -8, 8, dtype)
    for a, b in zip(H.vals(lo), H.vals(hi)):
        H.assume(a < b)
    m = tp.create_Cartesian_mesh(F.Comm(), ns, lo, hi, p)
    g, top = m._cpp_object.geometry, m._cpp_object.topology
    e = getattr(g.cmap, "e", g.cmap)
    H.check(e.cell == F.CT[dim - 1] and e.degree == p and tuple(e.kw.get("shape", ())) == (dim,) and np.dtype(e.kw.get("dtype", np.float64)) == np.dtype(dtype), "element of the geometry")
    el = basix.create_element(basix.ElementFamily.P, e.cell, e.degree, lagrange_variant=variant(H, e.kw))
    ref = [[0.3, 0.2, 0.6], [0.9, 0.45, 0.15]]
    c = H.choice("c", 0, math.prod(ns) - 1)
    t = unflat(int(top.original_cell_index[c]), ns)
    X = [H.vals(g.x[int(g.input_global_indices[i])]) for i in g.dofmap[c]]
    L, U = H.vals(lo), H.vals(hi)
    tol = 1e-3 if dtype == np.float32 else 1e-9
    for r in ref:
        phi = el.tabulate(0, np.array([r[:dim]]))[0, 0, :, 0]
        for d in range(dim):
            got = 0.0
            for w, x in zip(phi, X):
                got = got + float(w) * x[d]
            err = got * ns[d] - (L[d] * (ns[d] - t[d] - r[d]) + U[d] * (t[d] + r[d]))
            H.check(H.all([err <= tol, err >= -tol]), "points of a cell are mapped affinely")
    H.reach("end")


def defaults(H):
    """meshes built with the arguments left out: unit domain, degree one, all the cells, nodes not merged"""
    F.install(H)
    dim = H.params["dim"]
    tp, base = H.mod("qugar.mesh.tp_mesh"), H.mod("qugar.mesh.mesh")
    ns = sizes(H, dim, H.params["n"])
    m = tp.create_Cartesian_mesh(F.Comm(), ns)
    H.check(m.degree == 1 and m.dtype == np.dtype(np.float64) and not m.has_inactive_cells, "degree one, double precision, all the cells")
    for b, n in zip(m.cell_breaks, ns):
        v = H.vals(b)
        H.check(len(v) == n + 1 and all(abs(float(a) - i / n) < 1e-14 for i, a in enumerate(v)), "breaks of the unit domain")
    x = np.array([[0.0, 0], [1, 0], [0, 1], [1, 1], [1, 0], [2, 0], [1, 1], [2, 1]])
    conn = np.array([[0, 1, 2, 3], [4, 5, 6, 7]])
    q = H.reals("q", 2, 0.0, 0.25)
    X = H.np.array([[float(a[0]) + H.vals(q)[0], float(a[1]) + H.vals(q)[1]] for a in x])
    m = base.Mesh(F.Comm(), X, conn, F.CT[1])
    H.check(m.degree == 1 and not m.has_merged_nodes and not m.has_inactive_cells, "degree one, all the cells, nodes not merged")
    H.check(len(m._cpp_object.geometry.input_global_indices) == 8, "nodes are kept apart unless asked to be merged")
    H.reach("end")


def other_rank(H):
    """a process other than the first one contributes neither cells nor nodes to the mesh"""
    F.install(H)
    import dolfinx.cpp
    seen = []
    tp = H.mod("qugar.mesh.tp_mesh")

    class Stop(Exception):
        pass

    def create(comm, conn, cmap, x, part=None):
        seen.append((comm, conn, x))
        raise Stop
    dolfinx.cpp.mesh.create_mesh = create
    comm = F.Comm()
    comm.rank, comm.size = H.choice("rank", 0, 2), 3
    p = H.choice("p", 1, 2)
    n = sizes(H, 2, [2, 2])
    tot = n[0] * n[1]
    br = [H.np.array([i + H.real(f"q{d}{i}", 0.0, 0.25) for i in range(k + 1)]) for d, k in enumerate(n)]
    act = [None, np.array([tot - 1])][H.choice("inactive", 0, 1)]
    try:
        tp.CartesianMesh(comm, F.Grid(br), p, act)
    except Stop:
        pass
    H.check(len(seen) == 1, "every process takes part in creating the mesh")
    c, cn, x = seen[0]
    H.check(c is comm and tuple(cn.shape[1:]) == ((p + 1) ** 2,) and tuple(x.shape[1:]) == (2,), "on the communicator requested")
    if comm.rank == 0:
        H.check(cn.shape[0] == (1 if act is not None else tot), "the first process provides the active cells")
        H.check(x.shape[0] == (n[0] * p + 1) * (n[1] * p + 1), "and their nodes")
    else:
        H.check(cn.shape[0] == 0 and x.shape[0] == 0, "the other processes provide none")
    H.reach("end")
