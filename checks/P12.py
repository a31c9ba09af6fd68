ASSUMPTIONS = ["files, clocks, locks (threading, flock) and the compiler are a model: a compiler may remove the output first, writes it in place, and may fail leaving it incomplete or removing it; replacing a file is atomic; the "
               "kernel releases the locks of a killed process; clocks do not go back"]
BOUNDS = "two actors (processes or threads) with up to two preemptions anywhere (three in the thorough tier), one of them possibly killed at any step; one failure of the compiler; any file times"
JOBS = []
for th in (0, 1):
    n = "threads" if th else "processes"
    JOBS.append(dict(name=n, kind="py", src="h_shim", function="concurrent", params=dict(threads=th)))
    JOBS.append(dict(name=n + "_fail", kind="py", src="h_shim", function="concurrent", params=dict(threads=th, switches=1, fails=1)))
    JOBS.append(dict(name=n + "_3", kind="py", src="h_shim", function="concurrent", params=dict(threads=th, switches=3), thorough_only=True))
JOBS.append(dict(name="killed", kind="py", src="h_shim", function="concurrent", params=dict(threads=0, switches=1, kills=True)))
JOBS.append(dict(name="after_kill", kind="py", src="h_shim", function="after", params=dict(kills=True)))
JOBS.append(dict(name="after_failure", kind="py", src="h_shim", function="after", params=dict(kills=False)))
JOBS.append(dict(name="compilers", kind="py", src="h_shim", function="compilers", params={}))
