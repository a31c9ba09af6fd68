ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin", "floating-point arithmetic is exact real arithmetic in the encoding"]
BOUNDS = "comparisons: all real values and tolerances; unique values: up to 4 symbolic values; point merging: up to 3 symbolic points (2D, 3D), tolerance 0.01"
JOBS = [dict(name="comparisons", src="h_tolerance.cpp", defs={"PART": 0})]
JOBS += [dict(name=f"unique_{n}", src="h_tolerance.cpp", defs={"PART": 1, "NP": n}, thorough_only=n > 3) for n in (2, 3, 4)]
JOBS += [dict(name=f"merge_{d}d_{n}" + s, src="h_tolerance.cpp", defs=dict({"PART": 2, "NP": n, "DIM": d}, **({"SEPARATED": 1} if s else {})),
              thorough_only=n > 3 or (n == 3 and d == 3)) for d in (2, 3) for n in (2, 3) for s in ("", "_separated")]
