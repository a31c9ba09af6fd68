ASSUMPTIONS = ["UFL, DOLFINx and the JIT compiler replaced by stand-ins with the behaviour documented (order of the integrals of a form, measures sharing their metadata)"]
BOUNDS = "forms of up to 4 integrals over one domain, identifiers 0 to 3 (any value), everywhere, -1 or pairs, with or without subdomain data, compiled once or twice or failing; lists of up to 3 forms"
E, C, I = "exterior_facet", "cell", "interior_facet"
JOBS = []


def job(name, types, kinds, shared="s", **k):
    t = k.pop("thorough_only", False)
    JOBS.append(dict(name="forms_" + name, kind="py", src="h_forms", function="forms", params=dict(types=types, kinds=kinds, shared=list((shared * 5)[:len(types)]), **k), thorough_only=t))


job("ext", [E, E, E], ["int", "int", "everywhere"], twice=1)
job("two", [E, E, E], ["int", "everywhere", "everywhere"], "sof", twice=1)
job("minus", [E, E], ["-1", "int"], twice=1)
job("tuple", [E, E, E], ["int", "everywhere", "tuple"], twice=1)
job("tuples", [E, E, E], ["everywhere", "tuple", "tuple"])
job("frozen", [E], ["everywhere"], "f", twice=1)
job("mixed", [C, E, E, I], ["int", "int", "everywhere", "int"])
job("cells", [C, C, C, I], ["int", "everywhere", "tuple", "everywhere"], "sof", twice=1)
job("none", [E, E], ["int", "tuple"], twice=1)
job("fails", [E, E, E], ["int", "everywhere", "tuple"], fails=1)
job("five", [C, E, E, E, E], ["everywhere", "int", "int", "everywhere", "tuple"], "so", twice=1, thorough_only=True)
JOBS += [dict(name="data", kind="py", src="h_forms", function="data"),
         dict(name="lists", kind="py", src="h_forms", function="lists"),
         dict(name="petsc", kind="py", src="h_forms", function="petsc")]
