ASSUMPTIONS = ["numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)"]
BOUNDS = "sets of up to 2 facets each (3 thorough), any cell id (up to 2^31-1 or 2^40), local facet ids 0-5, both integer types"
JOBS = [dict(name=f"{op}_{n}" + ("_64" if dt else ""), kind="py", src="h_facets", function="algebra", params={"op": op, "n": n, "dt": dt}, time_q=80, time_t=600, thorough_only=n > 2)
        for op in ("intersect", "difference", "unique", "concatenate") for n in (2, 3) for dt in (0, 1)]
JOBS += [dict(name=f"find_{n}", kind="py", src="h_facets", function="find", params={"n": n}, thorough_only=n > 2) for n in (2, 3)]
BOUNDS += "; meshes of up to 3 x 2 and 2 x 2 x 1 cells, up to 2 facets (any) converted or listed"
ASSUMPTIONS += ["DOLFINx replaced by a serial model (pyh/fake_dolfinx.py)"]
JOBS += [dict(name="numbering2", kind="py", src="h_facets", function="numbering", params=dict(dim=2, sizes=[3, 2])), dict(name="numbering3", kind="py", src="h_facets", function="numbering", params=dict(dim=3, sizes=[2, 2, 1])),
         dict(name="listing2", kind="py", src="h_facets", function="listing", params=dict(dim=2, sizes=[3, 2], k=1)), dict(name="listing2b", kind="py", src="h_facets", function="listing", params=dict(dim=2, sizes=[2, 1], k=2)),
         dict(name="listing3", kind="py", src="h_facets", function="listing", params=dict(dim=3, sizes=[2, 1, 2], k=1)),
         dict(name="listing2c", kind="py", src="h_facets", function="listing", params=dict(dim=2, sizes=[2, 2], k=2), thorough_only=True, time_t=900)]
