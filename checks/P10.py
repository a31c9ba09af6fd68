ASSUMPTIONS = ["UFL replaced by the matrix algebra of its operators on fractions of reals, and ufl.Measure by a stand-in with its documented behaviour (tuples of identifiers are split with reconstruct)"]
BOUNDS = "any real Jacobian (not singular) and tangents, for planar and spatial domains, surfaces and curves excluded from 1D; measures derived once or twice"
JOBS = []
for g, t in ((2, 2), (3, 2), (3, 3)):
    for k in ("plain", "call", "tuple", "init", "degree"):
        JOBS.append(dict(name=f"area_{g}{t}_{k}", kind="py", src="h_bdry", function="area", params=dict(gdim=g, tdim=t, kind=k)))
    JOBS.append(dict(name=f"normal_{g}{t}", kind="py", src="h_bdry", function="normal", params=dict(gdim=g, tdim=t, unit=0)))
    JOBS.append(dict(name=f"unit_{g}{t}", kind="py", src="h_bdry", function="normal", params=dict(gdim=g, tdim=t, unit=1)))
JOBS.append(dict(name="tags", kind="py", src="h_bdry", function="tags"))
