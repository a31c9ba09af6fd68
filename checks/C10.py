ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin: its quadratures of implicitly defined regions are any result compatible with the region", "floating-point arithmetic is exact real arithmetic in the encoding"]
BOUNDS = ("grids of up to 2x2 and 3x1 (2D), 2x1x1 (3D) cells; every decomposition of the grid; every status of some facets per cell (the others fixed and different)")
JOBS = []
for n, d, nx, ny, nz, free in (("2x1", 2, 2, 1, 1, 1), ("1x2", 2, 1, 2, 1, 1), ("2x2", 2, 2, 2, 1, 0), ("3x1", 2, 3, 1, 1, 0), ("2x1x1", 3, 2, 1, 1, 1), ("1x1x2", 3, 1, 1, 2, 1)):
    JOBS.append(dict(name=f"lists_{n}", src="h_unf.cpp", defs={"PART": 0, "DIM": d, "NX": nx, "NY": ny, "NZ": nz, "FREE": free}, time_q=150, time_t=800))
for n, d, nx, ny, nz, sc in (("2x1", 2, 2, 1, 1, 0), ("1x2", 2, 1, 2, 1, 1), ("3x1", 2, 3, 1, 1, 2), ("1x1x2", 3, 1, 1, 2, 1)):
    JOBS.append(dict(name=f"cells_{n}", src="h_unf.cpp", defs={"PART": 1, "DIM": d, "NX": nx, "NY": ny, "NZ": nz, "SCALE": sc, "FACETS": 0, "FIRST": 0, "MAXCOMP": 0}, time_q=150, time_t=800))
for d, first, sc in [(2, k, 0) for k in range(4)] + [(3, k, 0) for k in range(6)]:
    JOBS.append(dict(name=f"facets_{d}d_{first}", src="h_unf.cpp", defs={"PART": 1, "DIM": d, "NX": 1, "NY": 1, "NZ": 1, "SCALE": sc, "FACETS": 1, "FIRST": first, "MAXCOMP": 35}, time_q=150, time_t=800))
for n, d, nx, ny, nz, org in (("2d_in", 2, 1, 1, 1, "-0.125"), ("2d_out", 2, 1, 1, 1, "-1.25"), ("2d_two", 2, 2, 1, 1, "-1.0"), ("3d", 3, 1, 1, 1, "-0.5")):
    JOBS.append(dict(name=f"bezier_{n}", src="h_unf.cpp", defs={"PART": 2, "DIM": d, "NX": nx, "NY": ny, "NZ": nz, "ORIGIN": f"({org})", "FEWER": 0}, time_q=150, time_t=800, thorough_only=n in ("2d_two", "3d")))
JOBS.append(dict(name="bezier_3d_fewer", src="h_unf.cpp", defs={"PART": 2, "DIM": 3, "NX": 1, "NY": 1, "NZ": 1, "ORIGIN": "(-0.5)", "FEWER": 1}, time_q=150))
