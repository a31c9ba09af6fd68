ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin", "floating-point arithmetic is exact real arithmetic in the encoding",
               "derivatives are computed exactly from the expression that the code builds along each path"]
BOUNDS = ("dimensions 1-3, image dimensions 1-3; orders 1-4 per direction in 1D/2D, 1-2 in 3D (1-3 thorough); Bernstein bases of order up to 6, derivatives up to third; "
          "Lagrange bases of order 2-4; all coefficients and points symbolic reals")
JOBS = []
for d, r in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (2, 3), (3, 3)):
    for p, n in ((0, "monomials"), (1, "bezier"), (2, "conversion"), (5, "image")):
        mo = {1: 5, 2: 4 if r == 1 else 3, 3: 2}[d]
        J = dict(src="h_poly.cpp", time_q=200, time_t=800)
        JOBS.append(dict(J, name=f"{n}_{d}d_{r}", defs={"DIM": d, "RANGE": r, "PART": p, "MAXORDER": mo}, thorough_only=(d, r) in ((2, 3), (3, 3))))
        if r == 1:
            JOBS.append(dict(J, name=f"{n}_{d}d_{r}_high", defs={"DIM": d, "RANGE": r, "PART": p, "MAXORDER": mo + 1}, thorough_only=True))
JOBS.append(dict(name="bernstein", src="h_poly.cpp", defs={"DIM": 1, "PART": 3, "MAXORDER": 6}))
for d, m in ((1, 5), (2, 3), (3, 2)):
    JOBS.append(dict(name=f"lagrange_{d}d", src="h_poly.cpp", defs={"DIM": d, "PART": 4, "MAXORDER": m}, time_q=200, time_t=800))
