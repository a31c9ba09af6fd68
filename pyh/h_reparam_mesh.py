"""DOLFINx meshes of reparameterizations: the map of every cell is the one of the reparameterization's own nodes"""
import math
from types import SimpleNamespace

import basix
import numpy as np

CHEBYSHEV = 7  # nodes per direction from which the nodes are not equally spaced


def nodes(n):
    if n < CHEBYSHEV:
        return [i / (n - 1) for i in range(n)]
    return [0.5 - 0.5 * math.cos((2 * i + 1) * math.pi / (2 * n)) / math.cos(math.pi / (2 * n)) for i in range(n)]


def load(H):
    H.fresh()
    import basix.ufl
    import dolfinx
    import dolfinx.cpp.graph
    import dolfinx.fem
    import dolfinx.geometry
    import dolfinx.mesh
    import mpi4py.MPI
    import qugar.cpp
    import ufl
    x = SimpleNamespace(made=[])

    def element(family, cell, degree, lagrange_variant=basix.LagrangeVariant.unset, dpc_variant=None, shape=None, symmetry=None, dof_ordering=None, discontinuous=False, dtype=None):
        if lagrange_variant == basix.LagrangeVariant.unset:
            lagrange_variant = basix.LagrangeVariant.gll_warped
        return SimpleNamespace(family=family, cell=cell, degree=degree, variant=lagrange_variant, shape=shape, discontinuous=discontinuous, order=dof_ordering)

    def create_mesh(comm, cells, e, x_=None, partitioner=None, **kw):
        if x_ is None:
            x_ = kw.pop("x")
        x.made.append(SimpleNamespace(comm=comm, cells=cells, e=e, x=x_, partitioner=partitioner))
        return x.made[-1]
    basix.ufl.element = element
    ufl.Mesh = lambda e: SimpleNamespace(element=e)
    dolfinx.mesh.create_mesh = create_mesh
    dolfinx.cpp.graph.AdjacencyList_int32 = lambda a: SimpleNamespace(adj=a)
    x.m = H.mod("qugar.reparam.reparam")
    x.cpp = qugar.cpp
    x.mesh = dolfinx.mesh
    return x


def geometry(H):
    p = H.params
    x = load(H)
    dim, rg, deg, wires = p["dim"], p["range"], p["degree"], p.get("wires", False)
    td = 1 if wires else dim
    n = deg + 1
    nodes_per = n**td
    ncells = H.choice("cells", 0, p.get("cells", 2))
    npts = nodes_per + 1
    X = [[H.real(f"x{i}_{d}", -9, 9) for d in range(rg)] for i in range(npts)]
    conns = [[i for i in range(nodes_per)], [(i * 2 + 1) % npts if npts % 2 else npts - 1 - i for i in range(nodes_per)]][:ncells]
    pts = H.array([v for r in X for v in r], np.float64).reshape((npts, rg))
    conn = H.array([v for c in conns for v in c], np.uint64).reshape((ncells, nodes_per))
    other = H.array([0] * 2 ** (dim if wires else 1), np.uint64).reshape((1, -1))
    cpp = SimpleNamespace(dim=dim, order=n, points=pts, cells_conn=other if wires else conn, wirebasket_conn=conn if wires else other)
    rank = H.int("rank", 0, 7)
    comm = SimpleNamespace(rank=rank)
    unf = SimpleNamespace(mesh=SimpleNamespace(comm=comm))
    r = x.m.UnfDomainReparamMesh(unf, cpp)
    H.check(H.all([r.cpp_object is cpp, r.unf_domain is unf]), "the mesh and domain given")
    got = r.create_mesh(wirebasket=True) if wires else r.create_mesh()
    H.check(len(x.made) == 1 and got is x.made[0] and got.comm is comm, "one mesh, on the domain's communicator")
    e = got.e.element if hasattr(got.e, "element") else got.e
    ctype = [basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][td - 1]
    H.check(H.all([e.cell == ctype, e.family in ("Lagrange", "P", "Q", "CG"), e.degree == deg, tuple(e.shape or ()) == (rg,), not e.discontinuous, e.order is None]), "a continuous vector element of the degree and shape of the reparameterization")
    H.check(H.all([tuple(got.cells.shape) == (ncells, nodes_per), tuple(got.x.shape) == (npts, rg)]), "all cells and points")
    gx = H.vals(got.x)
    gx = [[gx[rg * i + d] for d in range(rg)] for i in range(npts)]
    gc = [int(c) for c in H.vals(got.cells)]
    be = basix.create_element(basix.ElementFamily.P, ctype, deg, e.variant)
    own = sorted(float(v) for v in basix.create_element(basix.ElementFamily.P, basix.CellType.interval, deg, e.variant).points.ravel())
    at = {(round(float(v), 9)): i for i, v in enumerate(own)}
    for j, q in enumerate(be.points):
        i = sum(at[round(float(v), 9)] * n**d for d, v in enumerate(q))
        for c in range(ncells):
            for d in range(rg):
                H.check(H.eq(gx[gc[c * nodes_per + j]][d], X[conns[c][i]][d]), "the nodes of the cells are in the element's order")
    t = nodes(n)
    lat = np.array([[t[(i // n**d) % n] for d in range(td)] for i in range(nodes_per)])
    phi = np.round(be.tabulate(0, lat)[0, :, :, 0], 9)
    for c in range(ncells):
        for i in range(nodes_per):
            for d in range(rg):
                v = 0
                for j in range(nodes_per):
                    if phi[i, j] != 0:
                        v = v + float(phi[i, j]) * gx[gc[c * nodes_per + j]][d]
                H.check(H.all([v - X[conns[c][i]][d] <= 1e-6, X[conns[c][i]][d] - v <= 1e-6]), "the cells of the mesh pass through the points where the reparameterization has them")
    # who owns the cells
    ct = [x.mesh.CellType.interval, x.mesh.CellType.quadrilateral, x.mesh.CellType.hexahedron][td - 1]
    for n in (ncells, 3, 7, 25):
        dest = got.partitioner(comm, 1, [ct], [H.array([0] * (n * 2**td), np.int64)])
        H.check(len(H.vals(dest.adj)) == n, "an owner for each cell")
        for v in H.vals(dest.adj):
            H.check(H.eq(v, rank), "cells stay where they are")
    H.reach("end")


def create(H):
    x = load(H)
    calls = []
    x.cpp.create_reparameterization = lambda *a, **k: calls.append(("domain", a, k)) or ("mesh", len(calls))
    x.cpp.create_reparameterization_levelset = lambda *a, **k: calls.append(("levelset", a, k)) or ("mesh", len(calls))
    x.m.UnfDomainReparamMesh.__init__ = lambda self, u, c: self.__dict__.update(u=u, c=c)
    unf = SimpleNamespace(cpp_unf_domain_object="cpp")
    how, ls = H.choice("how", 0, 2), H.flag("levelset")
    deg = H.int("degree", 1, 12)
    r = x.m.create_reparam_mesh(unf) if how == 0 else x.m.create_reparam_mesh(unf, deg) if how == 1 else x.m.create_reparam_mesh(unf, degree=deg, levelset=ls)
    ls = ls and how == 2
    if how == 0:
        deg = 3
    H.check(len(calls) == 1, "one reparameterization is computed")
    kind, a, k = calls[0]
    n = a[1] if len(a) > 1 else k.get("n_pts_dir")
    H.check(H.all([kind == ("levelset" if ls else "domain"), a[0] == "cpp", H.eq(n, deg + 1)]), "the reparameterization asked for")
    H.check(r.u is unf and r.c == ("mesh", 1), "the mesh computed for the domain given")
    H.reach("end")


def interpolation(H):
    x = load(H)
    seen = []
    x.m.dlf_create_interpolation_data = lambda *a: seen.append(a) or "data"
    n, g = H.choice("local", 0, 3), H.choice("ghosts", 0, 2)
    td = H.choice("dim", 1, 3)
    top = SimpleNamespace(dim=td, index_map=lambda d: SimpleNamespace(size_local=n, num_ghosts=g) if d == td else SimpleNamespace(size_local=7, num_ghosts=7))
    to, fr = SimpleNamespace(mesh=SimpleNamespace(topology=top)), SimpleNamespace()
    pad = H.flag("padding")
    cells, data = x.m.create_interpolation_data(to, fr, 0.25) if pad else x.m.create_interpolation_data(to, fr)
    H.check([int(c) for c in H.vals(cells)] == list(range(n + g)), "every local cell, and ghosts")
    H.check(len(seen) == 1 and data == "data" and seen[0][0] is to and seen[0][1] is fr and seen[0][2] is cells and seen[0][3] == (0.25 if pad else 1e-14), "data for these cells between these spaces")
    H.reach("end")
