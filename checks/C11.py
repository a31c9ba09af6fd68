ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin: its quadratures have any nodes and weights in the given region", "floating-point arithmetic is exact real arithmetic in the encoding"]
BOUNDS = ("grids of two cells of unequal lengths; one cell of any kind (empty, full, cut, full with unfitted boundary), any status of one of its facets (each facet in turn), up to 2 points inside, up to 5 points per facet, "
          "polynomials of orders 2 and 3 with symbolic coefficients and given nodes; surface points inside, on facets aligned or oblique; 1 to 3 points per direction; all nodes, weights and gradients symbolic")
JOBS = []
for d, n in ((2, 2), (3, 1)):
    JOBS.append(dict(name=f"cells_{d}d", src="h_cutquad.cpp", defs={"PART": 0, "DIM": d, "NPTS": 3, "FACET": 0}, time_q=150, time_t=800))
    for f in range(2 * d):
        JOBS.append(dict(name=f"surface_{d}d_{f}", src="h_cutquad.cpp", defs={"PART": 1, "DIM": d, "NPTS": n, "FACET": f}, time_q=150, time_t=800))
        JOBS.append(dict(name=f"facets_{d}d_{f}", src="h_cutquad.cpp", defs={"PART": 2, "DIM": d, "NPTS": n, "FACET": f}, time_q=150, time_t=800))
    JOBS += [dict(name=f"bezier_{k}_{d}d", src="h_cutquad.cpp", defs={"PART": 3, "DIM": d, "NPTS": 2, "SURFACE": int(k == "surface"), "FACET": 0}, time_q=150, time_t=800) for k in ("cells", "surface")]
