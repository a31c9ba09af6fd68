ASSUMPTIONS = ["basix replaced by elements that remember how they were created and tabulate values identifying element, entry and point, and whose creation fails for some degrees (standin_basix)", "one thread"]
BOUNDS = "sequences of up to 3 (4 thorough) registrations with any parameters in either type, with and without a reset; tables of up to 2 points, 2 derivatives, any handle and buffers from one entry short; up to 3 scratch requests"
INC = ["standin_basix", "/repo/python/qugar/dolfinx/_shim"]
J = lambda name, thorough_only=False, **d: dict(name=name, kind="cpp", src="h_shim.cpp", defs=d, inc=INC, thorough_only=thorough_only, time_q=100, time_t=900)  # noqa: E731
JOBS = [J("register2", MODE=0, NREG=2), J("register3a", MODE=0, NREG=3, MASK=5), J("register3b", MODE=0, NREG=3, MASK=10), J("register3c", MODE=0, NREG=3, MASK=49), J("register3", True, MODE=0, NREG=3), J("tabulate1", MODE=1, CELL=1, DEG=1, ND=1), J("tabulate2", MODE=1, CELL=4, DEG=1, ND=1), J("tabulate3", MODE=1, CELL=3, DEG=0, ND=0),
        J("scratch", MODE=2, NREG=2), J("scratch3", MODE=2, NREG=3), J("register4", True, MODE=0, NREG=4, MASK=33), J("tabulate3_more", True, MODE=1, CELL=5, DEG=1, ND=2), J("tabulate2_more", True, MODE=1, CELL=2, DEG=2, ND=2)]
