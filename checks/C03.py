ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin", "floating-point arithmetic is exact real arithmetic in the encoding"]
BOUNDS = "dimensions 1-3, all corners, points and margins symbolic reals, boxes of positive length"
JOBS = [dict(name=f"box_{d}d", src="h_bbox.cpp", defs={"DIM": d}, time_q=150, time_t=600) for d in (1, 2, 3)]
