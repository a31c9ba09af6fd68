ASSUMPTIONS = ["forms' data, FFCx' rules and DOLFINx' assembly of scalars are replaced by models (pyh/h_requests.py); rules coincide when their points do, as in FFCx",
               "numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)"]
BOUNDS = "up to two forms with three integrals, degrees 0 to 5; version numbers up to 3000"
J = lambda name, f, t=80, thorough_only=False, **p: dict(name=name, kind="py", src="h_requests", function=f, params=p, time_q=t, time_t=600, thorough_only=thorough_only)  # noqa: E731
JOBS = [J("rules2", "quadratures", forms=[[2]]), J("rules_forms", "quadratures", forms=[[1], [1]]), J("rules3", "quadratures", forms=[[2], [1]], kinds=[3, 0, 3]), J("rules3b", "quadratures", forms=[[1, 1], [1]], kinds=[0, 3, 0]), J("rules3c", "quadratures", forms=[[1, 1, 1]], kinds=[4, 3, 4]),
        J("rules3_more", "quadratures", thorough_only=True, forms=[[2], [1]]), J("scalar", "scalar"), J("versions", "versions")]
