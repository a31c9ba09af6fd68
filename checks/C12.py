ASSUMPTIONS = ["the reparameterisation of a single cut cell (algoim's root finding) is replaced by any cell", "floating-point arithmetic is exact real arithmetic in the encoding"]
BOUNDS = ("meshes of up to 4 cells with 2 to 4 (and 7) points per direction, at symbolic positions; orientation of affine cells with a symbolic edge, level sets of any gradient; wires of one cell with one edge of any ends; three wires of up to 5 nodes, open or closed, sharing nodes or repeated in either sense; "
          "reparameterisations of grids of three cells of every kind")
JOBS = []
for d, o in ((2, 2), (2, 3), (2, 7), (3, 2)):
    JOBS.append(dict(name=f"cells_{d}d_{o}", src="h_reparam.cpp", defs={"PART": 0, "DIM": d, "RANGE": d, "ORDER": o}, time_q=150, time_t=800))
for d, o in ((2, 2), (2, 3), (2, 4), (3, 2)):
    JOBS.append(dict(name=f"merge_{d}d_{o}", src="h_reparam.cpp", defs={"PART": 1, "DIM": d, "RANGE": d, "ORDER": o}, time_q=150, time_t=800))
for d, r, o in ((2, 2, 2), (2, 2, 3), (3, 3, 2), (1, 2, 2), (1, 2, 3), (2, 3, 2)):
    for v in range(d):
        JOBS.append(dict(name=f"orient_{d}d{r}_{o}_{v}", src="h_reparam.cpp", defs={"PART": 2, "DIM": d, "RANGE": r, "ORDER": o, "VAR": v}, time_q=150, time_t=800))
for d, r, o, edges in ((2, 2, 2, range(4)), (2, 2, 3, (1,)), (2, 3, 2, (2,)), (3, 3, 2, (0, 5, 10))):
    for e in edges:
        JOBS.append(dict(name=f"wires_{d}d{r}_{o}_{e}", src="h_reparam.cpp", defs={"PART": 3, "DIM": d, "RANGE": r, "ORDER": o, "EDGE": e}, time_q=150, time_t=800, thorough_only=r == 3 and d == 3 and e != 5))
for d, r, o in ((2, 2, 2), (2, 2, 3), (1, 2, 2), (2, 3, 2), (3, 3, 2)):
    JOBS.append(dict(name=f"domain_{d}d{r}_{o}", src="h_reparam.cpp", defs={"PART": 4, "DIM": d, "RANGE": r, "ORDER": o}, time_q=150, time_t=800))
for o in (2, 3, 4, 5):
    JOBS.append(dict(name=f"closed_{o}", src="h_reparam.cpp", defs={"PART": 5, "DIM": 2, "RANGE": 2, "ORDER": o}, time_q=150, time_t=800, thorough_only=o == 5))
