ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin", "floating-point arithmetic is exact real arithmetic in the encoding",
               "inverse: |determinant| > 1e-3"]
BOUNDS = "dimensions 2-3, coefficients and points symbolic reals; axes in [-4,4] not (nearly) parallel"
JOBS = []
for d in (2, 3):
    for p, n in ((0, "action"), (1, "composition"), (2, "inverse"), (3, "basic"), (4, "axes"), (7, "refsystem")):
        JOBS.append(dict(name=f"{n}_{d}d", src="h_affine.cpp", defs={"DIM": d, "PART": p}, time_q=150, time_t=700))
JOBS.append(dict(name="orthotropic_3d", src="h_affine.cpp", defs={"DIM": 3, "PART": 5}))
JOBS.append(dict(name="axis_3d", src="h_affine.cpp", defs={"DIM": 3, "PART": 6}))
JOBS.append(dict(name="axis_near_x_3d", src="h_affine.cpp", defs={"DIM": 3, "PART": 6, "NEARX": 1}))
JOBS.append(dict(name="refsystem_near_x_3d", src="h_affine.cpp", defs={"DIM": 3, "PART": 7, "NEARX": 1}))
