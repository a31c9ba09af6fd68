ASSUMPTIONS = ["numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)", "numbering of facets and permutations as in basix and FFCx (reflection after rotations, permutation 2 rotations + reflections)"]
BOUNDS = "triangles, quadrilaterals, tetrahedra, hexahedra; 2 points (3 thorough) with any real coordinates, on any facet with any permutation"
JOBS = []
for c in ("triangle", "quadrilateral", "tetrahedron", "hexahedron"):
    JOBS += [dict(name=f"permute_{c}", kind="py", src="h_fq", function="permute", params=dict(cell=c, n=1 if c == "hexahedron" else 2)),
             dict(name=f"mapping_{c}", kind="py", src="h_fq", function="mapping", params=dict(cell=c, n=2)),
             dict(name=f"mapping_{c}_3", kind="py", src="h_fq", function="mapping", params=dict(cell=c, n=3), thorough_only=True),
             dict(name=f"permute_{c}_more", kind="py", src="h_fq", function="permute", params=dict(cell=c, n=2 if c == "hexahedron" else 3), thorough_only=True, time_t=900)]
JOBS += [dict(name="mapping_f32", kind="py", src="h_fq", function="mapping", params=dict(cell="hexahedron", n=1, f32=1)),
         dict(name="permute_none", kind="py", src="h_fq", function="permute", params=dict(cell="hexahedron", n=0))]
