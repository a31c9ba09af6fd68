"""points of facets: permutations and maps into the cell"""
from types import SimpleNamespace

import numpy as np

TDIM = {"triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}
FACET = {"triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}
NPERM = {"interval": 2, "triangle": 6, "quadrilateral": 8}
NFACETS = {"triangle": 3, "quadrilateral": 4, "tetrahedron": 4, "hexahedron": 6}
# vertices of the facets of the reference cells of basix
VERTS = {"triangle": [(0, 0), (1, 0), (0, 1)], "quadrilateral": [(0, 0), (1, 0), (0, 1), (1, 1)],
         "tetrahedron": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], "hexahedron": [(x, y, z) for z in (0, 1) for y in (0, 1) for x in (0, 1)]}
FVERTS = {"triangle": [(1, 2), (0, 2), (0, 1)], "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
          "tetrahedron": [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
          "hexahedron": [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)]}


class Name(str):
    """a name that is a method in some versions of UFL and a property in others"""
    def __call__(self):
        return str(self)


class Dim(int):
    def __call__(self):
        return int(self)


class Cell:
    def __init__(self, name):
        self.name = name

    @property
    def cellname(self):
        return Name(self.name)

    @property
    def topological_dimension(self):
        return Dim({"interval": 1, "triangle": 2, "quadrilateral": 2}.get(self.name, 3))

    def num_sub_entities(self, d):
        assert d == self.topological_dimension - 1
        return NFACETS[self.name]

    def sub_entity_types(self, d):
        assert d == self.topological_dimension - 1
        return (Cell(FACET[self.name]),)

    def facet_types(self):
        return (Cell(FACET[self.name]),)

    def num_facets(self):
        return NFACETS[self.name]

    def __eq__(self, o):
        return isinstance(o, Cell) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name


def install():
    import ufl
    ufl.Cell = Cell


class Topology:
    def __init__(self, cell, perms):
        self.cell_type = self.ct = SimpleNamespace(name=cell)
        self._perms, self.ready = perms, False

    def create_entity_permutations(self):
        self.ready = True

    def get_facet_permutations(self):
        assert self.ready, "permutations not created"
        return self._perms


def permuted(fcell, p, perm):
    """FFCx: rotations, then reflection; permutation = 2 * rotations + reflection"""
    p = list(p)
    if fcell == "interval":
        return [1 - p[0]] if perm else p
    for _ in range(perm // 2):
        p = [p[1], 1 - p[0] - p[1]] if fcell == "triangle" else [p[1], 1 - p[0]]
    return [p[1], p[0]] if perm % 2 else p


def mapped(cell, facet, p):
    v = [VERTS[cell][i] for i in FVERTS[cell][facet]]
    out = [x for x in v[0]]
    for i, c in enumerate(p):
        out = [o + c * (a - b) for o, a, b in zip(out, v[i + 1], v[0])]
    return out


def rows(H, a):
    return [list(H.vals(a[i])) for i in range(a.shape[0])]


def same(H, got, want):
    return H.all(H.all(H.eq(a, b) for a, b in zip(g, w)) if len(g) == len(w) else False for g, w in zip(got, want)) if len(got) == len(want) else False


def permute(H):
    install()
    m = H.mod("qugar.dolfinx.custom_quad_utils")
    cell, n = H.params["cell"], H.params["n"]
    fc, td, nf = FACET[cell], TDIM[cell], NFACETS[cell]
    ncells = 2
    table = [[(3 * c + 5 * f + 1) % NPERM[fc] for f in range(nf)] for c in range(ncells)]
    cells = [H.choice(f"c{i}", 0, ncells - 1) for i in range(n)]
    facets = [H.choice(f"f{i}", 0, nf - 1) for i in range(n)]
    # any permutation for the facets involved
    for i in range(n):
        table[cells[i]][facets[i]] = H.choice(f"p{i}", 0, NPERM[fc] - 1)
    mesh = SimpleNamespace(topology=Topology(cell, np.array(sum(table, []), dtype=np.uint8)))
    X = [[H.real(f"x{i}_{k}") for k in range(td - 1)] for i in range(n)]
    pts = H.np.array(X, dtype=np.float64).reshape(n, td - 1)
    got = m.permute_facet_points(pts, mesh, np.array(cells, dtype=np.int32), np.array(facets, dtype=np.int32))
    H.check(H.all([got.shape == (n, td - 1), same(H, rows(H, got), [permuted(fc, X[i], table[cells[i]][facets[i]]) for i in range(n)])]), "points permuted as the facet of their cell")
    H.check(same(H, rows(H, pts), X), "the points given are left as they are")
    H.reach("end")


def mapping(H):
    install()
    m = H.mod("qugar.dolfinx.custom_quad_utils")
    cell, n = H.params["cell"], H.params["n"]
    td, nf = TDIM[cell], NFACETS[cell]
    facets = [H.choice(f"f{i}", 0, nf - 1) for i in range(n)]
    X = [[H.real(f"x{i}_{k}") for k in range(td - 1)] for i in range(n)]
    dt = np.float32 if H.params.get("f32") else np.float64
    pts = H.np.array(X, dtype=dt).reshape(n, td - 1)
    got = m.map_facets_points(pts, np.array(facets, dtype=np.int32), SimpleNamespace(name=cell))
    H.check(H.all([got.shape == (n, td), got.dtype == dt]), "one coordinate more than in the facet")
    H.check(same(H, rows(H, got), [mapped(cell, facets[i], X[i]) for i in range(n)]), "points mapped to their facet of the cell")
    H.check(same(H, rows(H, pts), X), "the points given are left as they are")
    H.reach("end")
