ASSUMPTIONS = ["DOLFINx' mesh creation and UFL's Mesh record what they are given; element nodes and basis functions are the installed Basix' (rounded to 1e-9)",
               "numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)"]
BOUNDS = "curves, quadrilaterals and hexahedra, degrees 1 to 5 (3D: 3), up to two cells with arbitrary points; degrees up to 12 of reparameterizations asked for"
J = lambda name, f, **p: dict(name=name, kind="py", src="h_reparam_mesh", function=f, params=p, time_q=80, time_t=600)  # noqa: E731
JOBS = [J(f"mesh_{d}in{r}_{k}{'w' if w else ''}", "geometry", dim=d, range=r, degree=k, wires=w) for d, r, k, w in
        [(1, 2, 1, False), (1, 2, 2, False), (1, 2, 3, False), (1, 2, 5, False), (2, 2, 1, False), (2, 2, 3, False), (2, 3, 4, False), (2, 2, 5, False), (3, 3, 1, False), (3, 3, 2, False), (3, 3, 3, False), (2, 2, 3, True), (3, 3, 4, True), (3, 3, 2, True), (2, 3, 1, True)]]
JOBS += [J("mesh_1in2_6", "geometry", dim=1, range=2, degree=6, wires=False), J("create", "create"), J("interpolation", "interpolation")]
