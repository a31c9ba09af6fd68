"""tensor-product index queries and orderings of nodes, edges and faces"""
import math

import numpy as np


def _sizes(H, dim, lo):
    return [H.choice(f"n{d}", lo, H.params["max"]) for d in range(dim)]


def _arr(H, ns):
    return H.np.array(ns, dtype=np.int32)


def _flat(t, ns):
    r, m = 0, 1
    for a, n in zip(t, ns):
        r, m = r + a * m, m * n
    return r


def _at(H, vals, i):
    r = vals[-1]
    for j in range(len(vals) - 1):
        r = H.ite(H.eq(i, j), vals[j], r)
    return r


def _entity(topology_vertices, ns):
    """{direction: fixed index} of the entity with those vertices (bit d of a vertex: side along d)"""
    fix = {}
    for d in range(len(ns)):
        s = {(v >> d) & 1 for v in topology_vertices}
        if len(s) == 1:
            fix[d] = s.pop() * (ns[d] - 1)
    return fix


def _set_is(H, got, ns, tid, cond, what, distinct=True):
    v = H.vals(got)
    H.check(len(np.shape(got) if not H.sym else got.shape) == 1, what + ": a list of indices")
    H.check(H.all([H.all([x >= 0, x < math.prod(ns)]) for x in v]), what + ": indices in range")
    H.check(H.iff(H.member(_flat(tid, ns), v), cond), what + ": exactly the indices of the entity")
    H.check(H.all([a < b for a, b in zip(v, v[1:])]), what + ": sorted without repetitions")


def sets(H):
    """indices in the interior, on faces and corners; tid is an arbitrary multi-index"""
    T = H.mod("qugar.mesh.tp_index").TensorProdIndex
    dim = H.params["dim"]
    ns = _sizes(H, dim, 2)
    tid = [H.int(f"t{d}", 0, ns[d] - 1) for d in range(dim)]
    n = _arr(H, ns)
    ends = [H.any([H.eq(tid[d], 0), H.eq(tid[d], ns[d] - 1)]) for d in range(dim)]
    _set_is(H, T.get_all_corners(n), ns, tid, H.all(ends), "corners")
    _set_is(H, T.get_all_internal(n), ns, tid, H.no(H.any(ends)), "internal indices")
    _set_is(H, T.get_all_faces(n), ns, tid, H.any(ends), "indices on faces")
    if dim < 3:
        _set_is(H, T.get_all_edges(n), ns, tid, H.any(ends), "indices on edges")
    for c in range(2 ** dim):
        H.check(H.eq(T.get_corner(n, c), _flat([((c >> d) & 1) * (ns[d] - 1) for d in range(dim)], ns)), "corner")
    H.reach("end")


def faces(H):
    T = H.mod("qugar.mesh.tp_index").TensorProdIndex
    import basix
    dim = H.params["dim"]
    ns = _sizes(H, dim, 1)
    tid = [H.int(f"t{d}", 0, ns[d] - 1) for d in range(dim)]
    n = _arr(H, ns)
    f = H.choice("f", 0, 2 * dim - 1)
    _set_is(H, T.get_face(n, f, lexicg=True), ns, tid, H.eq(tid[f // 2], (f % 2) * (ns[f // 2] - 1)), "lexicographic face")
    top = basix.topology([basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][dim - 1])
    fix = _entity(top[dim - 1][f], ns)
    _set_is(H, T.get_face(n, f), ns, tid, H.all([H.eq(tid[d], x) for d, x in fix.items()]), "DOLFINx face")
    H.reach("end")


EDGES = [[(0, 4), (1, 5), (2, 6), (3, 7)], [(0, 2), (1, 3), (4, 6), (5, 7)], [(0, 1), (2, 3), (4, 5), (6, 7)]]


def edges(H):
    T = H.mod("qugar.mesh.tp_index").TensorProdIndex
    import basix
    dim = H.params["dim"]
    ns = _sizes(H, dim, 1)
    tid = [H.int(f"t{d}", 0, ns[d] - 1) for d in range(dim)]
    n = _arr(H, ns)
    e = H.choice("e", 0, [1, 3, 11][dim - 1])
    if dim == 3:
        fix = _entity(EDGES[e // 4][e % 4], ns)
    else:
        fix = {e // 2: (e % 2) * (ns[e // 2] - 1)}
    _set_is(H, T.get_edge(n, e, lexicg=True), ns, tid, H.all([H.eq(tid[d], x) for d, x in fix.items()]), "lexicographic edge")
    top = basix.topology([basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][dim - 1])
    fix = _entity(top[min(dim - 1, 1)][e], ns)
    _set_is(H, T.get_edge(n, e), ns, tid, H.all([H.eq(tid[d], x) for d, x in fix.items()]), "DOLFINx edge")
    H.reach("end")


def large(H):
    """more indices than fit in 32 bits: corners, and faces and edges that are small themselves"""
    T = H.mod("qugar.mesh.tp_index").TensorProdIndex
    dim = H.params["dim"]
    big = H.choice("big", 0, dim - 1)
    ns = [2 ** 29 + 3 if d == big else 3 + d for d in range(dim)]
    if dim == 1:
        ns = [2 ** 31 - 1]
    tid = [H.int(f"t{d}", 0, ns[d] - 1) for d in range(dim)]
    n = _arr(H, ns)
    ends = [H.any([H.eq(tid[d], 0), H.eq(tid[d], ns[d] - 1)]) for d in range(dim)]
    _set_is(H, T.get_all_corners(n), ns, tid, H.all(ends), "corners of a large grid")
    for s in range(2):
        _set_is(H, T.get_face(n, 2 * big + s, lexicg=True), ns, tid, H.eq(tid[big], s * (ns[big] - 1)), "face of a large grid")
    if dim == 3:
        for e in range(12):
            if 2 - e // 4 != big:
                fix = _entity(EDGES[e // 4][e % 4], ns)
                _set_is(H, T.get_edge(n, e, lexicg=True), ns, tid, H.all([H.eq(tid[d], x) for d, x in fix.items()]), "edge of a large grid")
    H.reach("end")


def convert(H):
    """flat <-> tensor; sizes from a table (also large), arbitrary indices"""
    T = H.mod("qugar.mesh.tp_index").TensorProdIndex
    dim = H.params["dim"]
    sizes = H.params["sizes"]
    ns = [sizes[H.choice(f"s{d}", 0, len(sizes) - 1)] for d in range(dim)]
    n = _arr(H, ns)
    tid = [H.int(f"t{d}", 0, ns[d] - 1) for d in range(dim)]
    f = T.get_flat_index(n, H.array(tid, np.int32))
    H.check(H.eq(f, _flat(tid, ns)), "flat index")
    back = T.get_tensor_index(n, f)
    H.check(H.all([H.eq(a, b) for a, b in zip(H.vals(back), tid)]), "tensor index of the flat index")
    fl = H.int("f", 0, math.prod(ns) - 1)
    t2 = H.vals(T.get_tensor_index(n, fl))
    H.check(H.all([H.all([a >= 0, a < m]) for a, m in zip(t2, ns)]), "tensor index in range")
    H.check(H.eq(_flat(t2, ns), fl), "flat index of the tensor index")
    H.reach("end")


# ---- orderings
def _vtk(H, ijk, p):
    """position in VTK's ordering of the node (i, j, k) of an element of degree p (as documented for VTK's higher-order cells)"""
    end = [H.any([H.eq(a, 0), H.eq(a, p)]) for a in ijk]
    m, n, ite, AND, NOT = p - 1, len(ijk), H.ite, H.all, H.no
    up = [H.no(H.eq(a, 0)) for a in ijk]
    if n == 1:
        return ite(end[0], ite(up[0], 1, 0), ijk[0] + 1)
    i, j = ijk[0], ijk[1]
    corner = ite(up[0], ite(up[1], 2, 1), ite(up[1], 3, 0))
    if n == 2:
        edge = ite(end[1], i - 1 + ite(up[1], 2 * m, 0) + 4, j - 1 + ite(up[0], m, 3 * m) + 4)
        inner = 4 + 4 * m + (i - 1) + m * (j - 1)
        return ite(AND(end), corner, ite(H.any(end), edge, inner))
    k = ijk[2]
    corner = corner + ite(up[2], 4, 0)
    o = 8
    e_i = (i - 1) + ite(up[1], 2 * m, 0) + ite(up[2], 4 * m, 0) + o
    e_j = (j - 1) + ite(up[0], m, 3 * m) + ite(up[2], 4 * m, 0) + o
    e_k = (k - 1) + m * ite(up[0], ite(up[1], 2, 1), ite(up[1], 3, 0)) + 8 * m + o
    edge = ite(NOT(end[0]), e_i, ite(NOT(end[1]), e_j, e_k))
    o += 12 * m
    f_i = (j - 1) + m * (k - 1) + ite(up[0], m * m, 0) + o
    o += 2 * m * m
    f_j = (i - 1) + m * (k - 1) + ite(up[1], m * m, 0) + o
    o += 2 * m * m
    f_k = (i - 1) + m * (j - 1) + ite(up[2], m * m, 0) + o
    face = ite(end[0], f_i, ite(end[1], f_j, f_k))
    o += 2 * m * m
    inner = o + (i - 1) + m * ((j - 1) + m * (k - 1))
    n01 = lambda a, b: H.all([end[a], end[b]])  # noqa: E731
    return ite(AND(end), corner, ite(H.any([n01(0, 1), n01(0, 2), n01(1, 2)]), edge, ite(H.any(end), face, inner)))


def _dolfinx_points(dim, p):
    """lexicographic position of each of DOLFINx's nodes"""
    import basix
    ct = [basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][dim - 1]
    x = basix.create_element(basix.ElementFamily.P, ct, p, basix.LagrangeVariant.equispaced).points
    t = np.rint(x * p).astype(int)
    return [int(sum(int(a) * (p + 1) ** d for d, a in enumerate(row))) for row in t]


def nodes(H):
    U = H.mod("qugar.mesh.utils")
    dim, p = H.params["dim"], H.choice("p", 1, H.params["max"])
    N = (p + 1) ** dim
    v2l, l2v = H.vals(U.VTK_to_lexicg_nodes(dim, p)), H.vals(U.lexicg_to_VTK_nodes(dim, p))
    d2l, l2d = H.vals(U.DOLFINx_to_lexicg_nodes(dim, p)), H.vals(U.lexicg_to_DOLFINx_nodes(dim, p))
    d2v, v2d = H.vals(U.DOLFINx_to_VTK_nodes(dim, p)), H.vals(U.VTK_to_DOLFINx_nodes(dim, p))
    H.check(all(len(x) == N for x in (v2l, l2v, d2l, l2d, d2v, v2d)), "one entry per node")
    ijk = [H.int(f"i{d}", 0, p) for d in range(dim)]
    lex = _flat(ijk, [p + 1] * dim)
    vtk = _vtk(H, ijk, p)
    H.check(H.all([vtk >= 0, vtk < N]), "VTK position in range")
    H.check(H.eq(_at(H, v2l, vtk), lex), "VTK nodes to lexicographic")
    H.check(H.eq(_at(H, l2v, lex), vtk), "lexicographic nodes to VTK")
    pts = _dolfinx_points(dim, p)
    x = H.int("x", 0, N - 1)
    H.check(H.eq(_at(H, d2l, x), _at(H, pts, x)), "DOLFINx nodes to lexicographic")
    H.check(H.eq(_at(H, l2d, _at(H, pts, x)), x), "lexicographic nodes to DOLFINx")
    H.assume(H.eq(_at(H, pts, x), lex))
    H.check(H.eq(_at(H, d2v, x), vtk), "DOLFINx nodes to VTK")
    H.check(H.eq(_at(H, v2d, vtk), x), "VTK nodes to DOLFINx")
    H.reach("end")


def entities(H):
    U = H.mod("qugar.mesh.utils")
    import basix
    dim = H.choice("dim", 1, 3)
    top = basix.topology([basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][dim - 1])
    two = [2] * dim
    lexf = []
    for v in top[dim - 1]:
        (d, s), = _entity(v, two).items()
        lexf.append(2 * d + s)
    f = H.int("f", 0, 2 * dim - 1)
    l2d, d2l = H.vals(U.lexicg_to_DOLFINx_faces(dim)), H.vals(U.DOLFINx_to_lexicg_faces(dim))
    H.check(H.eq(_at(H, l2d, f), _at(H, lexf, f)), "faces in DOLFINx order")
    H.check(H.eq(_at(H, d2l, _at(H, lexf, f)), f), "faces in lexicographic order")
    l2v, v2l = H.vals(U.lexicg_to_VTK_faces(dim)), H.vals(U.VTK_to_lexicg_faces(dim))
    H.check(H.all([H.eq(_at(H, l2v, _at(H, v2l, f)), f), H.eq(_at(H, v2l, _at(H, l2v, f)), f)]), "faces to VTK and back")
    ne = [2, 4, 12][dim - 1]
    e = H.int("e", 0, ne - 1)
    if dim == 3:
        flat = [tuple(sorted(x)) for g in EDGES for x in g]
        lexe = [flat.index(tuple(sorted(v))) for v in top[1]]
    else:
        lexe = lexf
    l2d, d2l = H.vals(U.lexicg_to_DOLFINx_edges(dim)), H.vals(U.DOLFINx_to_lexicg_edges(dim))
    H.check(H.eq(_at(H, l2d, e), _at(H, lexe, e)), "edges in DOLFINx order")
    H.check(H.eq(_at(H, d2l, _at(H, lexe, e)), e), "edges in lexicographic order")
    H.reach("end")
