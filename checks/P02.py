ASSUMPTIONS = ["DOLFINx's numbering of nodes, edges and faces is that of the installed basix; VTK's is the one documented for its higher-order cells (edges 10 and 11 as in VTK 9.1 and later)"]
BOUNDS = "1-3 directions, degrees 1-8 / 1-5 / 1-3 (1-12 / 1-8 / 1-5 thorough), any node, edge and face"
JOBS = [dict(name="entities", kind="py", src="h_tp", function="entities")]
for d, a, b in ((1, 8, 12), (2, 5, 8), (3, 3, 5)):
    JOBS += [dict(name=f"nodes{d}", kind="py", src="h_tp", function="nodes", params=dict(dim=d, max=a)),
             dict(name=f"nodes{d}_more", kind="py", src="h_tp", function="nodes", params=dict(dim=d, max=b), thorough_only=True, time_t=900)]
