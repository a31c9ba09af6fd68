ASSUMPTIONS = ["FFCx's stages (analysis, representation, formatting) and cffi are stand-ins that record what they receive and may fail; FFCx's cache protocol (whoever creates the C file compiles, others wait for the ready file) is reproduced"]
BOUNDS = "one or two forms, a failure at any call of the stages, the compiler or the loader; every combination of cache folder, handlers, environment, libraries, debugging and verbosity; linker flags of up to 3 tokens (5 in the thorough tier) from an alphabet of 7"
JOBS = [dict(name=f"compile{n}", kind="py", src="h_jit", function="compile_", params=dict(forms=n)) for n in (1, 2)]
JOBS.append(dict(name="names", kind="py", src="h_jit", function="names", params={}))
JOBS.append(dict(name="flags3", kind="py", src="h_jit", function="flags", params=dict(n=3)))
JOBS.append(dict(name="flags4", kind="py", src="h_jit", function="flags", params=dict(n=4), thorough_only=True))
JOBS.append(dict(name="flags5", kind="py", src="h_jit", function="flags", params=dict(n=5), thorough_only=True))
JOBS.append(dict(name="options", kind="py", src="h_jit", function="options", params={}))
