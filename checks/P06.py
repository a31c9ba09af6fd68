ASSUMPTIONS = ["numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)",
               "DOLFINx packs one row of coefficients per cell or exterior facet and, for interior facets, the values of both sides of each coefficient one after the other over two rows; kernels get the first entry of their entity"]
BOUNDS = "up to 3 entities, each full, cut or empty; up to 2 points per entity (any coordinates, weights, normals); up to 2 quadratures per integral; 0-3 columns of coefficients; float32, float64, complex64, complex128"
N = [0]


def J(t, thorough_only=False, **p):
    N[0] += 1
    d = dict(type=t, td=2, dtype="float64", cols=1, n=2, npts=[0, 2], quads=[[2, 0]])
    d.update(p)
    return dict(name=f"{t.replace('_facet', '')}{N[0]}", kind="py", src="h_pack", function="pack", params=d, thorough_only=thorough_only, time_q=80, time_t=900)


JOBS = [J("cell", cols=2, update=1), J("cell", n=3, npts=[0, 1]), J("cell", quads=[[2, 0], [2, 1]], npts=[0, 1]), J("cell", dtype="float32", td=3, quads=[[4, 1]], npts=[1, 1], n=2), J("cell", cols=0, n=2, npts=[0, 1], dtype="float32"),
        J("cell", dtype="complex64", cols=1, update=1, npts=[0, 1]), J("cell", dtype="complex128", cols=2, update=1, npts=[0, 1]), J("cell", n=0, update=1), J("cell", n=0, cols=0),
        J("exterior_facet", cols=2, update=1, npts=[0, 1]), J("exterior_facet", n=3, npts=[1, 1]), J("exterior_facet", td=3, simplex=1, npts=[0, 1]), J("exterior_facet", td=3, mixed=1, npts=[0, 1]), J("exterior_facet", quads=[[2, 0], [3, 0]], mixed=1, npts=[0, 1], n=1),
        J("exterior_facet", dtype="complex128", npts=[1, 1]), J("exterior_facet", dtype="float32", npts=[1, 1], n=2),
        J("interior_facet", cols=2, update=1, npts=[0, 1]), J("interior_facet", n=3, npts=[1, 1], cols=1), J("interior_facet", td=3, cols=0, npts=[0, 1]), J("interior_facet", td=3, simplex=1, cols=1, npts=[1, 1], quads=[[2, 0], [5, 0]], n=1),
        J("interior_facet", dtype="float32", cols=1, npts=[1, 1], update=1), J("interior_facet", dtype="complex64", cols=2, npts=[1, 1]), J("interior_facet", dtype="complex128", cols=1, npts=[1, 1]),
        J("cell", True, n=3, npts=[0, 2], cols=3, update=1), J("cell", True, n=3, npts=[0, 1], quads=[[2, 0], [2, 1]], dtype="float32"), J("exterior_facet", True, n=3, npts=[0, 2], td=3, mixed=1), J("interior_facet", True, n=3, npts=[0, 2], td=3, cols=3, update=1),
        J("interior_facet", True, n=2, npts=[0, 2], quads=[[2, 0], [5, 0]], simplex=1, td=3, dtype="complex128"),
        dict(name="positions", kind="py", src="h_pack", function="positions", params=dict(k=2)), dict(name="positions3", kind="py", src="h_pack", function="positions", params=dict(k=3), thorough_only=True, time_t=900)]
