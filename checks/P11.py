ASSUMPTIONS = ["kernels written as FFCx 0.10 writes them stand for FFCx's output (FFCx is not installed); elements are real basix's", "the shim is a stand-in that checks the requests and returns an arbitrary value per element, derivative, point, function and component (the real shim is checked by P07)"]
BOUNDS = "24 kernels (cells, exterior, interior and mixed-dimensional facets, unfitted boundaries; scalar, blocked, mixed and vector-valued elements; one or two quadratures; four scalar types), 0 to 2 custom points per quadrature (3 thorough), any values of tables, weights, normals, coefficients, constants and coordinates"
import sys as _s
from pathlib import Path as _P
_s.path.insert(0, str(_P(__file__).resolve().parent.parent / "pygen"))
from kernel_configs import CONFIGS as _C
JOBS = []
for _c in _C:
    JOBS += [dict(name=_c, kind="cpp", src="h_kernel.cpp", gen=["pygen/kernelgen.py", _c], defs=dict(NPTS=2), time_q=100, time_t=600),
             dict(name=_c + "_3", kind="cpp", src="h_kernel.cpp", gen=["pygen/kernelgen.py", _c], defs=dict(NPTS=3), thorough_only=True, time_q=100, time_t=900)]
JOBS += [dict(name=_c + "_faults", kind="cpp", src="h_kernel.cpp", gen=["pygen/kernelgen.py", _c], defs=dict(NPTS=1, FAULTS=1), time_q=100, time_t=600) for _c in ("quad2", "int")]
