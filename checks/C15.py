ASSUMPTIONS = ["algoim's headers are not installed: containers, intervals and restrictions follow their documented behaviour (standin/), and the roots along a direction are the exact ones of the functions considered, "
               "with those at the ends of the box found or not"]
BOUNDS = "linear functions of 5 slopes and any constant (no corner of the box within 1e-3 of zero), a parabola, a band and hyperbolas of any size, a tilted saddle; Bézier functions of degree 1, and of degree 2 without zeros; 2D and 3D; orders 2 to 5 in 2D, 2 and 3 in 3D; every facet; cells appended to others"
JOBS = []


def job(name, r, kind, o, fn, twice=0, thorough_only=False, slopes=5):
    JOBS.append(dict(name=name, src="h_cell.cpp", defs={"RANGE": r, "KIND": kind, "ORDER": o, "FN": fn, "TWICE": twice, "SLOPES": slopes}, replaces=["impl_utils"], time_q=150, time_t=800, thorough_only=thorough_only))


for r in (3, 2):
    for k, kind in enumerate(("volume", "surface", "facet")):
        for o in (2, 3) if r == 3 else (2, 3, 5):
            job(f"{kind}_{r}d_{o}", r, k, o, 0, twice=int(o == 2 and (r, k) != (3, 0)), thorough_only=o == 5 or (r, o) == (3, 3), slopes=2 if (r, k) == (3, 0) else 1 if (r, k) == (3, 2) else 2 if r == 3 else 3 if o == 2 else 5)
for k, kind in enumerate(("volume", "surface", "facet")):
    job(f"{kind}_3d_all", 3, k, 2, 0, twice=1, thorough_only=True)
for n, fn in enumerate(("parabola", "band", "hyperbola")):
    for k, kind in enumerate(("volume", "surface")):
        job(f"{fn}_{kind}_2d", 2, k, 3, n + 1)
        job(f"{fn}_{kind}_3d", 3, k, 2, n + 1, thorough_only=fn != "band")
        if fn == "parabola":
            job(f"narrow_{fn}_{kind}_3d", 3, k, 2, n + 1)
            JOBS[-1]["defs"]["NARROW"] = 1
job("crossing_volume_2d", 2, 0, 2, 6)
job("tilted_volume_3d", 3, 0, 2, 5)
for r in (2, 3):
    for k, kind in enumerate(("volume", "surface")):
        for o in (2, 3):
            job(f"bezier_{kind}_{r}d_{o}", r, k, o, 0, twice=int((r, o) == (2, 2)), slopes=5 if r == 2 else 2, thorough_only=(r, o) == (3, 3))
            JOBS[-1]["defs"]["BEZIER"] = 1
    for k, kind in enumerate(("volume", "surface")):
        for n, fn in ((3, "hyperbola"), (4, "bowl")):
            job(f"bezier_{fn}_{kind}_{r}d", r, k, 3 if r == 2 else 2, n, thorough_only=r == 3 and n == 3)
            JOBS[-1]["defs"]["BEZIER"] = 1
for j in JOBS:
    d = j["defs"]
    if d["FN"] == 0 and d["ORDER"] == 2 and d["RANGE"] - (d["KIND"] > 0) > 1:
        d["WIRES"] = 1
