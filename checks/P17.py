ASSUMPTIONS = ["qugar.cpp is replaced by functions with the signatures of the wrappers, which cannot be compiled here (no nanobind); the defaults of the C++ constructors are those checked by C08",
               "numpy replaced by a symbolic implementation of the operations used (validated by replaying solver models on the real numpy)"]
BOUNDS = "every function of qugar.impl, every combination of optional arguments, parameters in [-8, 8], single and double precision, up to 3 points"
J = lambda name, f, t=80, thorough_only=False, **p: dict(name=name, kind="py", src="h_impl", function=f, params=p, time_q=t, time_t=600, thorough_only=thorough_only)  # noqa: E731
JOBS = [J("shapes", "shapes"), J("others", "others"), J("sizes", "sizes"), J("evaluation", "evaluation")]
