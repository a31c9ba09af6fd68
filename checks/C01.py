ASSUMPTIONS = ["algoim::uvector replaced by the stand-in in /verif/standin (elementwise integer vector)"]
BOUNDS = ("dimensions 1-3; sizes per direction from {1,3,1500,65536} (flat/multi conversions, 64-bit flat index symbolic over the whole "
          "grid) and {1,2,3,4,5,7}; ranges with symbolic lower bounds up to 10^6 and extents 0-3 (0-2 in 3D) for iteration, "
          "symbolic extents up to 10^6 for splitting")
JOBS = []
for d in (1, 2, 3):
    for p, n in ((0, "flat_roundtrip"), (1, "multi_roundtrip_order"), (2, "iteration"), (3, "split"), (4, "flat_membership")):
        small = [0, 1] if p in (0, 1) else [1]
        for s in small:
            defs = {"DIM": d, "PART": p}
            if s:
                defs["SMALL"] = 1
            JOBS.append(dict(name=f"{n}_{d}d" + ("_small" if s and p in (0, 1) else ""), src="h_tensor_index.cpp", defs=defs, time_q=150,
                             time_t=800, bounds="see BOUNDS"))
