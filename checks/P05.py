ASSUMPTIONS = ["numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)",
               "DOLFINx replaced by a serial model (pyh/fake_dolfinx.py) and the C++ unfitted domain by one with arbitrary statuses of cells and facets (pyh/h_unf.py)"]
BOUNDS = "grids of up to 4 cells with any status each; facets: 2 x 1 grid (2D and 3D), up to two inner and one outer facet with any of the 11 statuses, others in fixed patterns, up to 3 queries in any order; degrees up to 6 (64 for the number of points)"
J = lambda name, f, thorough_only=False, t=80, **p: dict(name=name, kind="py", src="h_unf", function=f, params=p, thorough_only=thorough_only, time_q=t, time_t=900)  # noqa: E731
JOBS = [J("cells", "cells", ns=[3, 1], calls=1), J("cells_calls", "cells", ns=[2, 1], calls=3), J("cells_tags", "cells", ns=[2, 1], calls=0, tags=1), J("cells3", "cells", ns=[1, 2, 1], calls=1),
        J("cells_more", "cells", True, ns=[2, 2], calls=2), J("cells_tags_more", "cells", True, ns=[3, 1], calls=0, tags=1),
        J("facets_in", "facets", ns=[2, 1], pattern=[1], inner=2, outer=0, calls=1), J("facets_calls", "facets", ns=[2, 1], pattern=[1, 0, 2], inner=1, outer=0, calls=2),
        J("facets_out", "facets", ns=[2, 1], pattern=[1, 2], inner=0, outer=6, calls=1), J("facets_both", "facets", ns=[2, 1], pattern=[4, 6, 3, 1], inner=1, outer=1, calls=1),
        J("facets_tags", "facets", ns=[2, 1], pattern=[1, 0, 2], inner=1, outer=0, calls=0, tags=1), J("facets3", "facets", ns=[2, 1, 1], pattern=[1, 0, 2, 8, 6], inner=1, outer=1, calls=1),
        J("facets_more", "facets", True, ns=[2, 1], pattern=[1, 0, 2], inner=2, outer=1, calls=2), J("facets_calls_more", "facets", True, ns=[2, 1], pattern=[1, 0, 2, 8, 6], inner=1, outer=0, calls=3),
        J("facets_tags_more", "facets", True, ns=[2, 1], pattern=[2, 8, 6, 1, 3], inner=1, outer=1, calls=1, tags=1),
        J("gauss", "gauss", max=64), J("quads2", "quads", ns=[3, 1]), J("quads3", "quads", ns=[2, 1, 1])]
