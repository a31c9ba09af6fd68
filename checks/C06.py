ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin (arrays, de Casteljau subdivision and sign of coefficients)", "floating-point arithmetic is exact real arithmetic in the encoding"]
BOUNDS = ("dimensions 1-3, 1-3 components; orders 1-4 (1D), 1-3 (2D), 1-2 (3D) of each operand; compositions of polynomials of orders 1-3 with others of orders 1-3 in all the dimensions; all coefficients and points symbolic reals")
JOBS = []


def job(name, thorough=False, **defs):
    JOBS.append(dict(name=name, src="h_polyops.cpp", defs=defs, time_q=200, time_t=900, thorough_only=thorough))


for d, r, m in ((1, 1, 4), (1, 3, 3), (2, 1, 3), (2, 2, 2), (3, 1, 2)):
    job(f"arith_{d}d_{r}", PART=0, DIM=d, RANGE=r, MAXORDER=m)
    job(f"arith_{d}d_{r}_more", True, PART=0, DIM=d, RANGE=r, MAXORDER=m + (1 if d < 3 else 0))
for d, r, m in ((2, 1, 4), (2, 2, 3), (3, 1, 3), (3, 3, 2)):
    job(f"facets_{d}d_{r}", PART=1, DIM=d, RANGE=r, MAXORDER=m)
for d, m in ((1, 4), (2, 3), (3, 2)):
    job(f"domain_{d}d", PART=2, DIM=d, MAXORDER=m)
    job(f"domain_{d}d_more", True, PART=2, DIM=d, MAXORDER=m + 1)
    job(f"sign_{d}d", PART=4, DIM=d, MAXORDER={1: 3, 2: 2, 3: 2}[d])
for outer, d, r, oo, m in ((1, 1, 1, 4, 3), (1, 2, 2, 3, 3), (1, 3, 1, 3, 2), (2, 1, 3, 3, 3), (2, 2, 1, 3, 2), (2, 3, 1, 2, 2), (3, 1, 1, 2, 3), (3, 2, 2, 2, 2), (3, 3, 1, 2, 2)):
    job(f"compose_{outer}_{d}_{r}", outer == 3 and d == 3, PART=3, DIM=d, RANGE=r, OUTER=outer, OUTERORDER=oo, MAXORDER=m)
