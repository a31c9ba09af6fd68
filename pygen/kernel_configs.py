"""Integrals whose kernels are checked.  Tables: [element, component, derivatives, restriction]."""
P2 = [[0.2, 0.3], [0.5, 0.1], [0.3, 0.6]]
P2b = [[0.15, 0.2], [0.4, 0.5]]
I2 = [[0.2113], [0.7887]]
Q3 = [[0.3, 0.2], [0.6, 0.7]]
UNF2 = [[0.1, 0.1], [0.2, 0.2]]
C = {}
# scalar elements on triangles: values and gradients, constant tables
C["tri"] = dict(cell="triangle", elements=[["P", "triangle", 1], ["P", "triangle", 2]], quads=[dict(points=P2)], ncoef=6, coefficients=[(0, 1)], nconst=1,
                terms=[dict(coefs=[dict(table=[1, 0, (0, 0)], off=0)], jac=[dict(table=[0, 0, (1, 0)], comp=0)], consts=[0], test=[0, 0, (0, 0)]),
                       dict(jac=[dict(table=[0, 0, (0, 1)], comp=1)], test=[0, 0, (1, 0)], trial=[1, 0, (0, 1)], stride=6, Aoff=3)])
# quadrilaterals: everything varies; two quadratures, second derivatives
C["quad2"] = dict(cell="quadrilateral", elements=[["Q", "quadrilateral", 1], ["Q", "quadrilateral", 2]], quads=[dict(points=P2), dict(points=P2b, degree=1)], ncoef=13, coefficients=[(0, 0), (4, 1)],
                  terms=[dict(jac=[dict(table=[0, 0, (1, 0)], comp=0)], test=[0, 0, (0, 1)]),
                         dict(quad=1, coefs=[dict(table=[1, 0, (1, 0)], off=4)], test=[1, 0, (2, 0)], Aoff=4),
                         dict(quad=1, coefs=[dict(table=[0, 0, (0, 0)], off=0)], test=[0, 0, (0, 0)])])
# blocked, mixed and vector-valued elements
C["mixed"] = dict(cell="triangle", elements=[["mixed", [["P", "triangle", 1, dict(shape=[2])], ["P", "triangle", 2, dict(discontinuous=True)]]], ["N1curl", "triangle", 1], ["P", "triangle", 1]], quads=[dict(points=P2)],
                  ncoef=12, coefficients=[(0, 0)],
                  terms=[dict(coefs=[dict(table=[0, 1, (0, 0)], off=3)], test=[1, 0, (0, 0)]), dict(test=[1, 1, (1, 0)], trial=[0, 2, (0, 0)], stride=6, Aoff=3), dict(test=[1, 1, (0, 0)], Aoff=21)])
C["rt_in_mixed"] = dict(cell="quadrilateral", elements=[["mixed", [["RT", "quadrilateral", 1], ["DQ", "quadrilateral", 1]]]], quads=[dict(points=P2)], terms=[dict(test=[0, 2, (0, 0)], trial=[0, 1, (0, 0)], stride=4), dict(test=[0, 0, (1, 0)], Aoff=16)])
C["rt2"] = dict(cell="quadrilateral", elements=[["RT", "quadrilateral", 1], ["mixed", [["Q", "quadrilateral", 1, dict(shape=[2, 2], symmetry=True)], ["mixed", [["DPC", "quadrilateral", 1], ["RT", "quadrilateral", 1]]]]]], quads=[dict(points=P2), dict(points=P2b)],
                terms=[dict(test=[0, 1, (0, 0)]), dict(quad=1, test=[0, 0, (0, 0)], Aoff=4), dict(quad=1, test=[1, 6, (0, 0)], trial=[1, 3, (0, 1)], stride=4, Aoff=8), dict(test=[1, 4, (0, 0)], Aoff=24)])
# unfitted boundary with another quadrature of the same integral
C["unf"] = dict(cell="quadrilateral", elements=[["Q", "quadrilateral", 1]], quads=[dict(points=P2), dict(points=UNF2, weights=[-1.0, -1.0], unf=True)], ncoef=4, coefficients=[(0, 0)], nconst=4, const_offsets=[(0, "value"), (1, "normal"), (3, "value")],
                terms=[dict(consts=[0], coefs=[dict(table=[0, 0, (0, 0)], off=0)], test=[0, 0, (0, 0)]),
                       dict(quad=1, normals=[(1, 0)], test=[0, 0, (0, 0)]), dict(quad=1, normals=[(1, 1), (1, 0)], normal_in_body=True, consts=[3], test=[0, 0, (1, 0)], Aoff=4)])
C["unf3"] = dict(cell="tetrahedron", elements=[["P", "tetrahedron", 1]], quads=[dict(points=[[0.1, 0.1, 0.1], [0.2, 0.2, 0.2]], weights=[-1.0, -1.0], unf=True)], nconst=12, const_offsets=[(0, "value"), (9, "normal")],
                 terms=[dict(normals=[(9, 2), (9, 0)], jac=[dict(table=[0, 0, (0, 0, 1)], comp=2)], consts=[0, 1], test=[0, 0, (0, 0, 0)]), dict(normals=[(9, 1)], normal_in_body=True, test=[0, 0, (0, 0, 0)], Aoff=4)])
# facets
C["ext"] = dict(cell="quadrilateral", type="exterior_facet", elements=[["Q", "quadrilateral", 1]], quads=[dict(points=I2)], ncoef=4, coefficients=[(0, 0)],
                terms=[dict(coefs=[dict(table=[0, 0, (0, 0)], off=0)], jac=[dict(table=[0, 0, (1, 0)], comp=1)], test=[0, 0, (0, 1)])])
C["ext_tri"] = dict(cell="triangle", type="exterior_facet", elements=[["P", "triangle", 2]], quads=[dict(points=I2)], terms=[dict(test=[0, 0, (0, 0)]), dict(test=[0, 0, (1, 1)], Aoff=6), dict(test=[0, 0, (1, 0)], trial=[0, 0, (0, 0)], stride=6, Aoff=12)])
C["mixdim"] = dict(cell="quadrilateral", type="exterior_facet", elements=[["Q", "quadrilateral", 1], ["P", "interval", 1]], quads=[dict(points=I2)], ncoef=2, coefficients=[(0, 1)],
                   terms=[dict(coefs=[dict(table=[1, 0, (0,)], off=0)], test=[0, 0, (0, 0)]), dict(test=[1, 0, (0,)], trial=[0, 0, (1, 0)], stride=4, Aoff=4)])
C["int"] = dict(cell="quadrilateral", type="interior_facet", elements=[["Q", "quadrilateral", 1]], quads=[dict(points=I2)], ncoef=8, coefficients=[(0, 0)],
                terms=[dict(coefs=[dict(table=[0, 0, (0, 0), "-"], off=4)], test=[0, 0, (0, 0), "+"]), dict(test=[0, 0, (1, 0), "-"], trial=[0, 0, (0, 1), "+"], stride=4, Aoff=4)])
C["int_n1"] = dict(cell="triangle", type="interior_facet", elements=[["N1curl", "triangle", 1], ["P", "triangle", 1]], quads=[dict(points=I2)],
                   terms=[dict(test=[0, 0, (0, 0), "+"]), dict(test=[0, 1, (0, 0), "-"], Aoff=3), dict(test=[1, 0, (1, 0), "-"], trial=[1, 0, (0, 0), "-"], stride=3, Aoff=6)])
C["int_hex"] = dict(cell="hexahedron", type="interior_facet", elements=[["Q", "hexahedron", 1]], quads=[dict(points=Q3)], terms=[dict(test=[0, 0, (0, 0, 0), "-"]), dict(test=[0, 0, (0, 0, 1), "+"], Aoff=8)])
# tables that are the same on each side and permutation, or for each point, at the points of the standard quadrature only
C["onepoint"] = dict(cell="triangle", elements=[["P", "triangle", 1]], quads=[dict(points=[[1 / 3, 1 / 3]])], ncoef=3, coefficients=[(0, 0)],
                     terms=[dict(coefs=[dict(table=[0, 0, (0, 0)], off=0)], jac=[dict(table=[0, 0, (1, 0)], comp=0)], test=[0, 0, (0, 0)])])
C["onepoint_two"] = dict(cell="triangle", elements=[["P", "triangle", 1]], quads=[dict(points=[[1 / 3, 1 / 3]]), dict(points=P2)], ncoef=3, coefficients=[(0, 0)],
                         terms=[dict(coefs=[dict(table=[0, 0, (0, 0)], off=0)], test=[0, 0, (0, 0)]), dict(quad=1, test=[0, 0, (0, 0)], Aoff=3)])
C["onepoint_int"] = dict(cell="quadrilateral", type="interior_facet", elements=[["Q", "quadrilateral", 1]], quads=[dict(points=[[0.5]])], terms=[dict(test=[0, 0, (0, 0), "+"]), dict(test=[0, 0, (0, 0), "-"], Aoff=4)])
# a table shared by two quadratures
C["shared"] = dict(cell="triangle", elements=[["P", "triangle", 1]], quads=[dict(points=P2), dict(points=P2b)], A_first_shared=True,
                   terms=[dict(test=[0, 0, (1, 0)]), dict(test=[0, 0, (0, 0)]), dict(quad=1, test=[0, 0, (0, 0)], Aoff=3), dict(quad=1, test=[0, 0, (1, 0)], Aoff=6)])
# mixed derivatives without any other of their order
C["second2"] = dict(cell="quadrilateral", elements=[["Q", "quadrilateral", 2]], quads=[dict(points=P2), dict(points=P2b)], ncoef=9, coefficients=[(0, 0)],
                    terms=[dict(coefs=[dict(table=[0, 0, (0, 1)], off=0)], test=[0, 0, (1, 1)]), dict(quad=1, test=[0, 0, (0, 2)], Aoff=9)])
C["second3"] = dict(cell="tetrahedron", elements=[["P", "tetrahedron", 3]], quads=[dict(points=[[0.1, 0.1, 0.3], [0.2, 0.4, 0.2]])], terms=[dict(test=[0, 0, (0, 1, 1)])])
# other scalar types
for k in ("f32", "c128", "c64"):
    C["tri_" + k] = dict(C["tri"], dtype=k)
C["unf_c128"] = dict(C["unf"], dtype="c128")
C["geo"] = dict(C["quad2"], geometry_table=True)
CONFIGS = C
