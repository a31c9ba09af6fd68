ASSUMPTIONS = ["PETSc and DOLFINx' assembly are replaced by models that add symbolic values (pyh/h_problems.py), with one free and one constrained unknown and contributions of other processes",
               "forms' values are arbitrary and change at every step with their coefficients"]
BOUNDS = "up to two problems, 2 solutions (3 with thorough) and 3 evaluations of residuals or Jacobians in any order, with or without boundary conditions"
J = lambda name, f, t=80, thorough_only=False, **p: dict(name=name, kind="py", src="h_problems", function=f, params=p, time_q=t, time_t=600, thorough_only=thorough_only)  # noqa: E731
JOBS = [J("linear", "linear"), J("nonlinear", "nonlinear"), J("linear3", "linear", thorough_only=True, solves=3)]
