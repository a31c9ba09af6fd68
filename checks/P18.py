ASSUMPTIONS = ["PyVista is replaced by a model of its data sets (pyh/h_plot.py): cell data follows the cells, extracted cells keep their order, facets of exploded cells come in the order in which PyVista extracts them, as recorded by the repository",
               "numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)"]
BOUNDS = "grids of up to 3 x 2 or 2 x 1 x 2 cells with arbitrary breaks and statuses, C++ and DOLFINx domains with renumbered and excluded cells, up to 2 points per entity; degrees 1 to 4 (3D: 3) of reparameterizations with up to 2 cells"
J = lambda name, f, t=80, thorough_only=False, **p: dict(name=name, kind="py", src="h_plot", function=f, params=p, time_q=t, time_t=600, thorough_only=thorough_only)  # noqa: E731
JOBS = [J("cells_cpp", "cells", ns=[2, 2], kind="cpp"), J("cells_mesh", "cells", ns=[2, 2], kind="mesh"), J("cells_cpp3", "cells", ns=[2, 1, 2], kind="cpp"), J("cells_mesh3", "cells", thorough_only=True, ns=[2, 1, 2], kind="mesh"), J("cells_mesh_more", "cells", thorough_only=True, ns=[3, 2], kind="mesh"),
        J("facets_cpp", "facets", ns=[3, 2], kind="cpp"), J("facets_mesh", "facets", ns=[3, 2], kind="mesh"), J("facets_cpp3", "facets", ns=[2, 1, 2], kind="cpp"), J("facets_mesh3", "facets", ns=[2, 1, 2], kind="mesh"),
        J("quad_cpp", "quadrature", ns=[2, 1], kind="cpp"), J("quad_mesh", "quadrature", ns=[3, 1], kind="mesh"), J("quad_cpp3", "quadrature", ns=[1, 2, 1], kind="cpp"), J("quad_mesh3", "quadrature", ns=[2, 1, 1], kind="mesh"),
        J("reparam1in2", "reparam", dim=1, gdim=2, p=5), J("reparam2in2", "reparam", dim=2, gdim=2, p=4), J("reparam2in3", "reparam", dim=2, gdim=3, p=3), J("reparam3in3", "reparam", dim=3, gdim=3, p=3)]
