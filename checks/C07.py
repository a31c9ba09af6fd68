ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin", "floating-point arithmetic is exact real arithmetic in the encoding",
               "sine and cosine of one argument are a pair (s,c) with s^2+c^2=1; sums inside their arguments are not expanded",
               "derivatives are computed exactly from the expression that the code builds along each path"]
BOUNDS = "dimensions 2-3; all parameters and the evaluation point symbolic reals (radii, periods and semi-axes positive within wide ranges, axes not null, affine maps invertible)"
_n = {0: "sphere", 1: "ellipsoid", 2: "plane", 3: "constant", 4: "multilinear", 5: "transformed", 6: "negative", 7: "sum", 8: "difference", 9: "quartic",
      10: "cylinder", 11: "square", 20: "schoen", 21: "schoen_iwp", 22: "schoen_frd", 23: "fischer_koch", 24: "schwarz_d", 25: "schwarz_p"}
JOBS = [dict(name=f"{n}_{d}d", src="h_funcs.cpp", defs={"FUNC": k, "DIM": d}, time_q=150, time_t=800) for k, n in _n.items() for d in (2, 3)
        if not (k == 10 and d == 2)]
