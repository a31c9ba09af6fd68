ASSUMPTIONS = ["floating-point arithmetic on symbolic values is exact real arithmetic in the encoding; arithmetic between the numbers of the tables is done in double precision, as in the program"]
BOUNDS = ("all the rules of 1 to 100 points, every polynomial of degree up to 2n-1 with coefficients in [-1,1] for Gauss and up to 8 for tanh-sinh; tensor-product rules of 1-3 dimensions and up to 3 points per direction "
          "(different per direction) over every box, and any ratio of scaling")
JOBS = []
for a, b in ((1, 40), (41, 70), (71, 100)):
    JOBS.append(dict(name=f"gauss_{a}_{b}", src="h_quad.cpp", defs={"PART": 0, "FIRST": a, "LAST": b}, time_q=150, time_t=600))
    JOBS.append(dict(name=f"tanh_sinh_{a}_{b}", src="h_quad.cpp", defs={"PART": 1, "FIRST": a, "LAST": b}, time_q=150, time_t=600))
for d, n in ((1, 5), (2, 3), (3, 2)):
    JOBS.append(dict(name=f"tensor_{d}d", src="h_quad.cpp", defs={"PART": 2, "DIM": d, "MAXN": n}, time_q=150, time_t=600))
    JOBS.append(dict(name=f"tensor_{d}d_more", src="h_quad.cpp", defs={"PART": 2, "DIM": d, "MAXN": n + 2 - (d == 3)}, time_q=150, time_t=900, thorough_only=True))
