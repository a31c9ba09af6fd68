ASSUMPTIONS = ["algoim replaced by the stand-in in /verif/standin", "floating-point arithmetic is exact real arithmetic in the encoding",
               "sine and cosine of one argument are a pair (s,c) with s^2+c^2=1; sums inside their arguments are not expanded",
               "the bases of the reference systems are those that property C04 covers"]
BOUNDS = "dimensions 2-3; all parameters and the evaluation point symbolic reals (radii, periods and semi-axes positive within wide ranges, axes and normals not null, affine maps invertible; squares under translations, scalings and quarter turns)"
_n = {0: "sphere", 1: "sphere_bzr", 2: "ellipsoid", 3: "ellipsoid_bzr", 4: "plane", 5: "plane_bzr", 6: "constant", 7: "constant_bzr", 8: "quartic", 9: "quartic_bzr",
      10: "cylinder", 11: "cylinder_bzr", 12: "square", 13: "multilinear", 14: "multilinear_map", 15: "combinations", 16: "transformed",
      20: "schoen", 21: "schoen_iwp", 22: "schoen_frd", 23: "fischer_koch", 24: "schwarz_d", 25: "schwarz_p"}
JOBS = [dict(name=f"{n}_{d}d", src="h_shapes.cpp", defs={"FUNC": k, "DIM": d}, time_q=150, time_t=800) for k, n in _n.items() for d in (2, 3)
        if not (k in (10, 11) and d == 2)]
# the general 3D Bezier ellipsoid (sixteen symbolic parameters under nested square roots) is out of reach of the
# solver within the quick tier: fixed axes with symbolic origin, semi-axes and point there
for j in JOBS:
    if j["name"] == "ellipsoid_bzr_3d":
        j["defs"]["FIXED_AXIS"] = 1
