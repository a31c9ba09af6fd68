"""A serial model of the part of DOLFINx used by the meshes: cells and nodes renumbered arbitrarily, facets and cells linked both ways.
Edges and faces of the reference cells are those of the installed basix."""
import sys
import types

import basix
import numpy as np

CT = [basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron]


class Cfg:
    cell_perm = None   # n -> list: original cell of each DOLFINx cell
    node_perm = None   # n -> list: original node of each DOLFINx node
    n_local = None     # number of local cells, if less than all


class Conn:
    def __init__(self, rows):
        self.rows = rows
        self.num_nodes = len(rows)
        self.array = np.array([x for r in rows for x in r], dtype=np.int32)
        self.offsets = np.cumsum([0] + [len(r) for r in rows]).astype(np.int32)

    def links(self, i):
        return np.array(self.rows[int(i)], dtype=np.int32)


class IndexMap:
    def __init__(self, n, off=0):
        self.size_local = self.size_global = n
        self.num_ghosts, self.local_range, self.off = 0, [0, n], off

    def local_to_global(self, ids):
        return ids.astype(np.int64)


class Topology:
    def __init__(self, dim, cells):
        """cells: corner vertices of each cell, in DOLFINx order"""
        self.dim, self.cells = dim, cells
        faces = basix.topology(CT[dim - 1])[dim - 1]
        ids, c2f = {}, []
        for c in cells:
            row = []
            for f in reversed(faces):
                row.append(ids.setdefault(frozenset(c[v] for v in f), len(ids)))
            c2f.append(row[::-1])
        # facets are numbered backwards, so that no ordering coincides by chance
        n = len(ids)
        self.c2f = [[n - 1 - f for f in row] for row in c2f]
        self.f2c = [[] for _ in range(n)]
        for c, row in enumerate(self.c2f):
            for f in row:
                self.f2c[f].append(c)
        self.made = set()

    def create_connectivity(self, a, b):
        self.made.add((a, b))

    def connectivity(self, a, b):
        assert (a, b) in self.made, "connectivity used before it is created"
        return Conn(self.c2f if a == self.dim else self.f2c)

    def index_map(self, d):
        return IndexMap(len(self.c2f) if d == self.dim else len(self.f2c))

    def cell_name(self):
        return ["interval", "quadrilateral", "hexahedron"][self.dim - 1]


class Geometry:
    pass


class Created:
    def __init__(self, conn, x, tdim):
        nc = len(conn)
        cp = Cfg.cell_perm(nc)
        used = sorted({int(v) for r in conn for v in r})
        np_ = Cfg.node_perm(len(used))
        order = [used[i] for i in np_]
        self.topology = Topology(tdim, [[int(v) for v in conn[int(c)][: 2 ** tdim]] for c in cp])
        self.topology.original_cell_index = np.array(cp, dtype=np.int64)
        g = Geometry()
        g.input_global_indices = np.array(order, dtype=np.int64)
        g.x, g.dim = x, x.shape[1] if len(x.shape) > 1 else 1
        pos = {v: i for i, v in enumerate(order)}
        g.dofmap = [[pos[int(v)] for v in conn[int(c)]] for c in cp]
        self.geometry = g
        self.conn = conn


class UflMesh:
    def __init__(self, e):
        self.e = e

    def ufl_coordinate_element(self):
        return self.e

    def ufl_id(self):
        return id(self)

    def ufl_cell(self):
        return self.e.cell


class UflElement:
    def __init__(self, family, cell, degree, **kw):
        self.cell, self.degree, self.kw = cell, degree, kw
        self.basix_element = self


class CMap:
    def __init__(self, e):
        self.e, self._cpp_object = e, e
        self.dim = (e.degree + 1) ** (CT.index(e.cell) + 1)


class Mesh:
    def __init__(self, msh, domain):
        self._cpp_object, self._ufl_domain = msh, domain
        self.topology, self.geometry = msh.topology, msh.geometry


class MeshTags:
    def __init__(self, mesh, dim, entities, values):
        self.mesh, self.dim, self.indices, self.values = mesh, dim, entities, values


class Comm:
    rank, size = 0, 1


class Grid:
    """Cartesian grid object of qugar.cpp"""
    def __init__(self, breaks):
        self.cell_breaks = breaks
        self.dim = len(breaks)
        self.num_cells_dir = [int(b.size) - 1 for b in breaks]
        self.num_cells = int(np.prod(self.num_cells_dir))


def install(H):
    def nump(rows):
        return [[int(v) for v in r] for r in (H.vals(row) for row in rows)]

    import basix.ufl
    import dolfinx
    import dolfinx.cpp
    import dolfinx.cpp.mesh
    import dolfinx.fem
    import dolfinx.mesh
    import qugar.cpp
    import ufl

    def create_mesh(comm, conn, cmap, x, part=None):
        n = conn.shape[0]
        rows = [[int(v) for v in H.vals(conn[i])] for i in range(n)]
        m = Created(rows, x, CT.index(cmap.cell) + 1)
        m.geometry.cmap = cmap
        return m

    dolfinx.cpp.mesh.create_mesh = create_mesh
    dolfinx.mesh.Mesh = Mesh
    dolfinx.mesh.MeshTags = MeshTags
    dolfinx.mesh.meshtags = MeshTags
    dolfinx.mesh.exterior_facet_indices = lambda top: np.array([f for f, c in enumerate(top.f2c) if len(c) == 1], dtype=np.int32)
    dolfinx.fem.coordinate_element = CMap
    basix.ufl.element = UflElement
    ufl.Mesh = UflMesh
    qugar.cpp.create_cart_grid = Grid
    for m in ("dolfinx.mesh", "dolfinx.cpp.mesh"):
        sys.modules[m].__dict__.setdefault("x", None)
    Cfg.cell_perm = Cfg.node_perm = lambda n: list(range(n))
    Cfg.n_local = None


def fake_scipy(H):
    sp, spatial = types.ModuleType("scipy"), types.ModuleType("scipy.spatial")
    sp.spatial = spatial

    class KDTree:
        def __init__(self, pts):
            self.pts = pts

        def query_pairs(self, tol, output_type="set"):
            n = self.pts.shape[0]
            out = []
            for i in range(n):
                for j in range(i + 1, n):
                    d = H.vals(self.pts[i] - self.pts[j])
                    if sum((a * a for a in d[1:]), d[0] * d[0]) <= tol * tol:
                        out.append((i, j))
            return H.np.array(out, dtype=np.int64).reshape(-1, 2) if out else np.empty((0, 2), dtype=np.int64)
    spatial.KDTree = KDTree
    sys.modules["scipy"], sys.modules["scipy.spatial"] = sp, spatial
