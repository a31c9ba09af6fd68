ASSUMPTIONS = ["files are recorded in memory: text as characters, numbers as such (converting numbers to text is the standard library's work)"]
BOUNDS = "meshes of curves, quadrilaterals and hexahedra in two and three dimensions, 2 to 5 (3D: 4) points per direction; up to 3 points of any coordinates, up to 2 cells and 2 wires of any nodes"
JOBS = []
for d, r, o in [(1, 2, 2), (1, 2, 4), (2, 2, 2), (2, 2, 3), (2, 2, 5), (2, 3, 4), (3, 3, 2), (3, 3, 3), (3, 3, 4)]:
    JOBS.append(dict(name=f"file_{d}d{r}_{o}", src="h_vtk.cpp", defs={"DIM": d, "RANGE": r, "ORDER": o, "_GLIBCXX_EXTERN_TEMPLATE": 0}, replaces=["reparam_mesh"], soft=True, time_q=120, time_t=600))
