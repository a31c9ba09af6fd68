ASSUMPTIONS = ["numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)",
               "DOLFINx replaced by a serial model (pyh/fake_dolfinx.py): arbitrary renumbering of cells and nodes, facets numbered by the sets of their vertices, reference-cell numbering of the installed basix"]
BOUNDS = "grids of up to 3 x 2 or 2 x 2 x 2 cells, degrees 1-4 (2D) and 1-3 (3D), arbitrary breaks and corners; bounding boxes for arbitrary increasing breaks; any permutation of up to 3 (4 thorough) cells or nodes; up to 4 nodes merged"
J = lambda name, f, thorough_only=False, t=80, **p: dict(name=name, kind="py", src="h_mesh", function=f, params=p, thorough_only=thorough_only, time_q=t, time_t=900)  # noqa: E731
JOBS = [J("nodes1", "nodes", dim=1, p=4, n=[3]), J("nodes2", "nodes", dim=2, p=3, n=[3, 2]), J("nodes3", "nodes", dim=3, p=2, n=[2, 1, 2]), J("nodes2_f32", "nodes", dim=2, p=3, n=[2, 2], f32=1),
        J("nodes2_more", "nodes", True, dim=2, p=5, n=[3, 3]), J("nodes3_more", "nodes", True, dim=3, p=3, n=[2, 2, 2]),
        J("cells", "cells", n=3, inactive=0, shuffle=0, nq=2), J("cells_inactive", "cells", n=2, inactive=1, shuffle=1), J("cells_inactive3", "cells", n=3, inactive=1, shuffle=0),
        J("cells_more", "cells", True, n=4, inactive=0, shuffle=0), J("cells_inactive_more", "cells", True, nq=2, n=3, inactive=1, shuffle=1),
        J("node_ids", "nodes_ids", n=3, merged=0), J("node_ids_merged", "nodes_ids", n=3, merged=1), J("node_ids_more", "nodes_ids", True, n=4, merged=1),
        J("merge3", "merge", n=3), J("merge4", "merge", n=4),
        J("facets2", "facets", dim=2, n=[3, 2], inactive=0), J("facets3", "facets", dim=3, n=[2, 2, 2], inactive=0), J("facets2_inactive", "facets", dim=2, n=[2, 2], inactive=1),
        J("facets1", "facets", dim=2, n=[3, 3], inactive=1, thorough_only=True),
        J("boxes2", "boxes", dim=2, n=[3, 2]), J("boxes3", "boxes", dim=3, n=[2, 1, 2]), J("boxes2_f32", "boxes", dim=2, n=[2, 2], f32=1),
        J("graded2", "graded", dim=2, n=[3, 2], p=2), J("graded3", "graded", dim=3, n=[2, 1, 2], p=1),
        J("affine2", "affine", dim=2, n=[2, 2], p=5), J("affine3", "affine", dim=3, n=[1, 2, 1], p=3), J("affine2_f32", "affine", dim=2, n=[1, 1], p=4, f32=1),
        J("defaults2", "defaults", dim=2, n=[2, 2]), J("defaults3", "defaults", dim=3, n=[2, 1, 1]), J("other_rank", "other_rank")]
