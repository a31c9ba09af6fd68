ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin", "floating-point arithmetic is exact real arithmetic in the encoding"]
BOUNDS = "2D grids with 1-3 cells per direction, 3D grids with 1-2 (equispaced: one more); all break coordinates, points and tolerances (<= 0.01, breaks more than 0.05 apart for point location) symbolic reals"
JOBS = [dict(name=f"{n}_{d}d", src="h_cart_grid.cpp", defs={"DIM": d, "PART": p}, time_q=200, time_t=800, bounds=f"dim {d}")
        for d in (2, 3) for p, n in ((0, "cells"), (1, "location"), (2, "subgrids"), (3, "equispaced"))]
