prop("C01", "Tensor-product indices and ranges form a bijection with flat indices",
     "Along one, two or three directions, converting a flat index to a multi-index and back (or the reverse) is the identity over the whole grid, the first direction runs "
     "fastest, comparison orders multi-indices lexicographically from the last component, and the total size is the exact product of the sizes. Iterating over a range of indices visits "
     "every index of the range exactly once, in increasing flat order, and an empty range visits nothing. Membership queries agree with the bounds of the range, and splitting a range yields two "
     "disjoint ranges that together cover it, cut at the middle of its longest direction.",
     ["inputs"], "every size per direction within the bounds, every flat and multi index, every range",
     "The tests convert a few indices of one small grid; the sizes at which 32-bit arithmetic wraps, empty ranges and odd extents are never reached.",
     ["cpp/qugar/tensor_index_tp.cpp", "cpp/include/qugar/tensor_index_tp.hpp"],
     [("flat/multi conversion, comparison, ranges and their iterators", "cpp/qugar/tensor_index_tp.cpp")])

prop("C02", "Cartesian grids: cells tile the domain and points are located correctly",
     "The cells of a Cartesian grid, numbered with the first direction fastest, tile its domain with the intervals between consecutive breaks. Locating a point returns a cell whose closed box (up to the tolerance) "
     "contains it and the lowest-numbered neighbour when the point lies on a boundary between cells; the boundary queries answer exactly whether a point lies within the tolerance of a face or of a cell boundary. Sub-grids keep the numbering "
     "of the parent's cells and split into two disjoint sub-grids covering the original; the cells adjacent to each face are listed completely, without repetition and in increasing order.",
     ["inputs"], "every grid within the bounds with arbitrary breaks, every point, tolerance and sub-range",
     "The tests use uniform grids and interior points; points near cell boundaries and non-uniform breaks decide whether the location is right.",
     ["cpp/qugar/cart_grid_tp.cpp", "cpp/include/qugar/cart_grid_tp.hpp"],
     [("cell boxes, point location, boundary cells and sub-grids", "cpp/qugar/cart_grid_tp.cpp")])

prop("C03", "Axis-aligned boxes: measures, membership, scaling and growth are exact",
     "The lengths, volume, mid-point, and the conversions between a box and the unit reference domain agree with its two corners, and mapping a point to the reference domain and back is the identity. "
     "Expanding a box contains the point it was expanded with and everything it contained before and nothing more than needed, and extending it by absolute or relative amounts moves each side by exactly that margin.",
     ["inputs"], "every box, point and margin (real values) in one, two and three dimensions",
     "The tests have no coverage of boxes with arbitrary corners; a swapped corner or direction is invisible on the unit box.",
     ["cpp/qugar/bbox.cpp", "cpp/include/qugar/bbox.hpp"],
     [("box queries and updates", "cpp/qugar/bbox.cpp")])

prop("C04", "Affine maps and orthonormal reference systems are consistent",
     "An affine map sends x to A x + b, its composition with another map equals applying both in turn, its inverse undoes it, and the maps of gradients and Hessians are those given by the chain rule. Reference systems built from one axis, two axes, or "
     "the Cartesian defaults have orthonormal, right-handed axes that keep the direction of the given axis, for any axis that is not null.",
     ["inputs"], "every matrix, translation, vector, tensor, and every axis not null (including almost aligned with x)",
     "Tests use isotropic scalings and Cartesian axes for which transposes, orderings and degenerate cross products go unnoticed.",
     ["cpp/qugar/affine_transf.cpp", "cpp/qugar/ref_system.cpp"],
     [("action, composition, inverse, tensors", "cpp/qugar/affine_transf.cpp"), ("orthonormal bases", "cpp/qugar/ref_system.cpp")])

prop("C05", "Monomial, Bézier and Lagrange forms agree with one another and their derivatives",
     "For every tensor-product polynomial of any order per direction and any number of components, evaluating the monomial form equals the sum of coefficients times powers, the Bézier form obtained from it has the same value at every point, "
     "and gradients and Hessians are the exact derivatives of the values, also when evaluated over interval arguments reduced to a point. Bernstein basis functions and their derivatives of any order match the definition, and Lagrange basis functions "
     "are one at their own node, zero at the others, and their derivatives are exact, for equidistant and for Chebyshev nodes. Transforming the image linearly or from one box to another acts pointwise on the values.",
     ["inputs"], "every coefficient and every point (real values), orders within the bounds, one to three dimensions and components",
     "Tests evaluate a handful of polynomials at a handful of points and compare values, hardly derivatives, and not with different orders per direction.",
     ["cpp/qugar/monomials_tp.cpp", "cpp/qugar/bezier_tp.cpp", "cpp/qugar/bezier_tp_utils.cpp", "cpp/qugar/lagrange_tp_utils.cpp", "cpp/qugar/polynomial_tp.cpp"],
     [("evaluation and derivatives", "cpp/qugar/bezier_tp.cpp and monomials_tp.cpp"), ("basis functions", "cpp/qugar/bezier_tp_utils.cpp and lagrange_tp_utils.cpp")])

prop("C07", "Gradients and Hessians of implicit functions are the derivatives of their values",
     "For every implicit function of the library (spheres, ellipsoids, cylinders, annuli, planes, constants, multilinear functions, squares, triply periodic minimal surfaces) and for the transformed, negated, added and subtracted functions, the gradient is the exact gradient "
     "of the value and the Hessian is the exact Hessian (the square's Hessian, which is not provided, excepted), in two and three dimensions, wherever the value is differentiable. The values are those of the documented formulas, and the composed functions combine the values of their operands.",
     ["inputs"], "every parameter and every point (real values)",
     "Tests integrate a few shapes and never compare the Hessians, nor gradients for rotated axes or unequal periods.",
     ["cpp/qugar/impl_funcs_lib.cpp", "cpp/qugar/primitive_funcs_lib.cpp", "cpp/qugar/tpms_lib.cpp"],
     [("values and derivatives of the primitive functions", "cpp/qugar/primitive_funcs_lib.cpp"), ("triply periodic surfaces", "cpp/qugar/tpms_lib.cpp")])

prop("C13", "Tolerant comparisons and merging of coincident points are consistent",
     "Tolerant comparisons of real numbers agree with the exact distance compared with the tolerance, are symmetric, and never contradict one another. Reducing a list of values to unique ones returns a sorted list in which every input has a representative within the tolerance and "
     "no two entries coincide; merging coincident points gives every point a representative that is itself represented by itself, gives coincident points the same representative, and keeps points that are well separated distinct.",
     ["inputs"], "every value, point and tolerance within the bounds",
     "Tests compare a few fixed numbers; the property depends on distances at the scale of the tolerance and the order of the points.",
     ["cpp/qugar/tolerance.cpp", "cpp/include/qugar/numbers.hpp"],
     [("comparisons and merging", "cpp/qugar/tolerance.cpp")])

prop("P03", "Sets of mesh facets behave as sets of (cell, local facet) pairs",
     "Intersecting, subtracting, and making facet sets unique give exactly the pairs that the set operation defines, sorted by cell and then local facet and free of repetitions, with the integer types kept; concatenating keeps every pair in order. Finding facets returns, for each searched pair, the position "
     "at which it appears, and a value error if any of them is missing. Local facets and their reference coordinates are converted between the lexicographic numbering and DOLFINx's consistently with the reference cells, and the exterior, interior and complete facet lists of a mesh are complete.",
     ["inputs"], "every pair of facet sets within the bounds, with repeated and unsorted pairs and empty sets",
     "No stable test touches the facet sets; the results depend on repetitions and orders that samples do not contain.",
     ["python/qugar/mesh/mesh_facets.py"],
     [("set operations and searches on facets", "python/qugar/mesh/mesh_facets.py")], tech=SOLVER_PY, note=NOTE_PY)

prop("C15", "Reparameterizations of single cut cells cover exactly the negative part",
     "Reparameterizing a cell cut by a general implicit function or a Bézier polynomial yields cells whose points lie within the cell where the function is not positive (on the zero level set, for the reparameterization of the boundary), that cover the whole negative part (or level set) exactly once, "
     "with interior points placed at the nodes of each reparameterization cell, positive orientation, and the normal of level sets along the gradient. The same holds for every facet of the cell, with the normal outwards. Several cells are appended to the same mesh without altering those it has.",
     ["inputs"], "every constant of the linear functions considered (all ways of cutting the cell), every size of the parabola, band and hyperbola, all facets",
     "The tests compare a few shapes with stored results; each way in which a plane or curve can cross a cell goes through other branches of the recursion.",
     ["cpp/qugar/impl_reparam_general.cpp", "cpp/qugar/impl_reparam_bezier.cpp", "cpp/qugar/impl_utils.cpp", "cpp/qugar/impl_reparam_mesh.cpp"],
     [("recursion over directions and intervals between roots", "cpp/qugar/impl_reparam_general.cpp"), ("intervals between roots", "cpp/qugar/impl_utils.cpp")])

prop("P01", "Tensor-product index sets list exactly the cells and nodes they name",
     "For every tensor-product size in one to three directions, the corner, face, edge, boundary and internal index lists contain exactly the indices that lie on that corner, face, edge, boundary or interior, each once, as flat indices with the first direction fastest, and "
     "conversions between flat and tensor indices are inverse to one another, for single indices and arrays.",
     ["inputs"], "every size within the bounds and every multi-index",
     "No stable test exercises them; equal sizes and two dimensions hide exchanged strides.",
     ["python/qugar/mesh/tp_index.py"],
     [("index sets and conversions", "python/qugar/mesh/tp_index.py")], tech=SOLVER_PY, note=NOTE_PY)

prop("P02", "Node, edge and face orderings convert exactly between QUGaR, DOLFINx and VTK",
     "For every degree and dimension the permutations between the lexicographic ordering and DOLFINx's or VTK's orderings of the nodes of a Lagrange cell are permutations, inverse to one another, and send every node to the one at the same reference point; "
     "the maps of the edges and faces of the reference cell agree with the vertices they contain.",
     ["inputs"], "every degree within the bounds and every node, edge and face",
     "No stable test exercises them; errors show in high degrees, and in edges and faces of hexahedra only.",
     ["python/qugar/mesh/utils.py"],
     [("ordering maps", "python/qugar/mesh/utils.py")], tech=SOLVER_PY, note=NOTE_PY)

prop("P04", "Cartesian meshes keep cells, nodes and facets consistent with the tensor grid",
     "Whatever order DOLFINx chooses for cells and nodes, whichever cells are inactive and whichever nodes are merged, the mesh converts between its own, the original and the lexicographic numbering of cells and nodes consistently and reports what has no counterpart; node coordinates are those of the tensor-product grid with the first direction "
     "fastest; merging nodes identifies exactly the ones asked for; cell boxes and tensor indices are those of the grid; and the facets listed for a face of the domain are exactly the ones lying on it.",
     ["inputs"], "every renumbering, set of active cells and merged nodes, breaks and corner within the bounds",
     "The tests that use DOLFINx need many packages and use its identity-like orderings; the property is about arbitrary renumberings.",
     ["python/qugar/mesh/mesh.py", "python/qugar/mesh/tp_mesh.py"],
     [("numberings of cells and nodes, boxes and facets", "python/qugar/mesh")], tech=SOLVER_PY, note=NOTE_PY)

prop("P05", "Unfitted domains report cut, full and empty cells and facets consistently",
     "Given the classification of every cell and facet, in any order of queries, the cut, full and empty cells and the cut, full and empty facets of exterior and interior integrals are exactly those whose status says so, in the mesh's own numbering: facets with an unfitted boundary count for exterior integrals as cut (full if the facet is full) wherever they are, and as empty for interior integrals unless cut. Tags list each entity "
     "under the tag of its kind, and quadratures are requested for the right cells and facets, with enough Gauss points for the degree and no more, and returned in the order asked for.",
     ["inputs", "schedules"], "every status of the cells and facets within the bounds and every order of queries",
     "The lists are cached between queries, so that the outcome depends on the order; statuses such as a full facet lying on the unfitted boundary need special geometries.",
     ["python/qugar/mesh/unfitted_domain.py", "python/qugar/mesh/unfitted_domain_abc.py", "python/qugar/mesh/unfitted_cart_mesh.py"],
     [("lists of cells and facets, tags", "python/qugar/mesh/unfitted_domain.py and unfitted_domain_abc.py"), ("quadratures", "python/qugar/mesh/unfitted_domain.py")], tech=SOLVER_PY, note=NOTE_PY)

prop("P06", "Packed coefficients hold each entity's own quadrature where kernels read it",
     "For every integral, the coefficient array handed to the kernels keeps in each row the values that DOLFINx packs, followed by the offset at which that row's custom data begins: negative for full entities, zero for empty ones, and for cut ones the distance, in the array's real units, from the entity's first entry to its data. "
     "The data consist of, for every quadrature of the integral in order, the number of points, the points, those seen from the other side for interior facets, the facet's own points for mixed-dimensional integrals, the weights, and the normals for unfitted boundaries, all in the entity's own order and within the array. Interior facets keep the coefficients of both sides consecutively, and "
     "updating the coefficients changes their values and leaves the custom data as they are. Each integral uses the data of its own type and subdomain.",
     ["inputs", "histories"], "every status, number of points, coordinates, weights, normals and coefficient values within the bounds, in all scalar types",
     "Tests that use DOLFINx are not in the stable set; a wrong offset shows only with several entities of different kinds, several quadratures, or coefficients of several sizes.",
     ["python/qugar/dolfinx/custom_coefficients.py"],
     [("packing and updating of coefficients", "python/qugar/dolfinx/custom_coefficients.py")], tech=SOLVER_PY, note=NOTE_PY)

prop("P07", "The runtime shim gives kernels the right element tables and survives errors",
     "Registering an element returns one handle per distinct combination of its parameters and scalar type, the same handle whenever it is registered again, and creates it only once. Tabulating with a handle fills the buffer with exactly that element's values at the given points, in its own scalar type. Whatever fails (an unknown handle, a buffer too small, a failure to create or tabulate) is reported through the "
     "documented negative code without any exception escaping, nothing is written beyond the buffer's end, and later calls keep working. Scratch memory is at least as large as requested, and resetting forgets every element.",
     ["inputs", "histories"], "every sequence of registrations, tabulations and resets, and every parameter, within the bounds",
     "Tests reach the shim only through compiled forms, which need packages missing from the stable set, and never its error paths.",
     ["python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"],
     [("element registry, tabulation and scratch memory", "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp")])

prop("P08", "Quadratures on facets are permuted and mapped into the cells consistently",
     "The points of a quadrature on a facet are permuted according to the facet's orientation with the convention used by FFCx (reflections after rotations), for every facet type and permutation, and mapped into the reference cell by the affine map that sends the facet's reference vertices to that facet's vertices of the cell, for every kind of cell, facet and point; both sides of an interior facet then "
     "see the same points.",
     ["inputs"], "every facet, permutation and point (real values) of every kind of cell",
     "The permutations that are not the identity appear only in meshes whose cells are rotated against one another; samples on Cartesian meshes never produce them.",
     ["python/qugar/dolfinx/custom_quad_utils.py"],
     [("permutation and mapping of facet points", "python/qugar/dolfinx/custom_quad_utils.py")], tech=SOLVER_PY, note=NOTE_PY)

prop("P09", "Forms over unfitted domains integrate each integral over its own entities",
     "Compiling a form over an unfitted domain gives every integral over the whole exterior boundary an identifier that no other exterior facet integral uses (including those in tuples), associates it with all the unfitted domain's exterior facets, and leaves every other integral with its own identifiers, metadata and entities, sorted by identifier. "
     "Coefficients, constants, function spaces and entity maps are those of the form, in the compiled order. Afterwards, also when the compilation fails, the form given by the user (and the metadata of its measures) is as it was, and compiling it again gives the same. "
     "A list of forms gives all of its forms in order, and packing or updating the coefficients of a list treats each form with its own coefficients.",
     ["inputs", "histories"], "every kind, identifier and data of the integrals within the bounds, compiled once, twice or failing",
     "Tests that compile forms are not in the stable set, and the defects appear only when several integrals with shared metadata, tuples or lists are combined.",
     ["python/qugar/dolfinx/forms.py", "python/qugar/dolfinx/petsc.py"],
     [("subdomains and compilation of forms", "python/qugar/dolfinx/forms.py"), ("coefficients of lists of forms", "python/qugar/dolfinx/petsc.py")], tech=SOLVER_PY, note=NOTE_PY)

prop("P10", "Integrals over unfitted boundaries carry the exact area ratio and normal",
     "Integrating over the unfitted boundary multiplies the integrand exactly once by the factor that, together with the cell's Jacobian determinant, gives the length or area of the mapped boundary for every Jacobian and normal (also for surfaces embedded in space), for every measure derived from another one: by subdomain, tuple of subdomains, degree, data or domain. "
     "The derived measure keeps the tags that mark it as an unfitted boundary, its degree, its data and its other metadata, without modifying the user's. The mapped normal is orthogonal to the mapped boundary, keeps its orientation, and has unit length when normalized.",
     ["inputs", "programs"], "every Jacobian, normal and derivation of measures within the bounds",
     "The factor is one for the identity map used in simple tests; skewed maps, embedded surfaces and measures over tuples of subdomains are what reveal a wrong one.",
     ["python/qugar/dolfinx/boundary.py"],
     [("measure and normals of unfitted boundaries", "python/qugar/dolfinx/boundary.py")], tech=SOLVER_PY, note=NOTE_PY)

prop("P11", "Generated kernels compute the same integrals with run-time quadratures",
     "For every integral, the C code generated for custom quadratures computes, for a cut entity, exactly what the kernel generated by FFCx would compute with that entity's quadrature points, weights and (on unfitted boundaries) normals in place of the fixed ones, with tables of the same elements, derivatives, components and facet sides, restricted and permuted as in FFCx; "
     "for full entities it computes the original integral, and for empty ones nothing. This holds with several quadratures per integral, elements shared by several tables, blocked and mixed elements, both sides of interior facets, mixed-dimensional integrals, and every scalar type; it reads the custom data only within the entity's range and writes scratch memory only where it requested it.",
     ["inputs", "programs", "configurations"], "all points, weights, normals, coefficients and table values (symbolic) for each generated kernel in the listed configurations, with up to 2 points per quadrature",
     "Tests that generate kernels are not in the stable set; errors appear only in combinations of several quadratures, elements shared between tables, facets' sides and scalar types.",
     ["python/qugar/dolfinx/codegeneration.py", "python/qugar/dolfinx/_kernel_body.py", "python/qugar/dolfinx/fe_table.py", "python/qugar/dolfinx/integral_data.py", "python/qugar/dolfinx/quadrature_data.py"],
     [("generation of kernels", "python/qugar/dolfinx/codegeneration.py and _kernel_body.py"), ("tables of elements", "python/qugar/dolfinx/fe_table.py")])

prop("C06", "Operations with tensor-product polynomials act pointwise on their values",
     "The negation, sum, difference, product and composition of tensor-product polynomials (monomials or Bézier, of any orders per direction, also different between the operands) are polynomials whose value at every point is that of the operation applied to the operands' "
     "values, and raising the order of a Bézier polynomial does not change it. Restricting a polynomial to a facet gives its values on that facet, for both sides of every direction; changing its domain to another box gives the value at the mapped point. "
     "The sign reported for a Bézier polynomial is positive only if it is positive all over its domain, negative only if it is negative all over, and undetermined otherwise; it is not left undetermined if all coefficients have the same strict sign.",
     ["inputs"], "every coefficient and every point (real values), orders within the bounds, one to three dimensions",
     "Tests use a few polynomials with equal orders in all the directions; unequal orders, upper facets and compositions in three variables are never evaluated.",
     ["cpp/qugar/monomials_tp.cpp", "cpp/qugar/bezier_tp.cpp", "cpp/qugar/bezier_tp_utils.cpp", "cpp/qugar/bezier_tp_utils_composition.cpp", "cpp/qugar/polynomial_tp.cpp"],
     [("sum, product, degree elevation, facets, change of domain", "cpp/qugar/bezier_tp.cpp and monomials_tp.cpp"), ("composition", "cpp/qugar/bezier_tp_utils_composition.cpp")])

prop("C08", "Named implicit functions are negative exactly inside the shape they describe",
     "The sphere, cylinder, ellipsoid, annulus, torus and half-space functions, with any centre, axis and size, and their Bézier versions, are negative exactly at the interior points of the shape, zero on its boundary and positive outside; the square and "
     "multilinear functions take their documented values; a function transformed by an affine map takes at the image of a point the value of the original function at the point; negation, addition and subtraction act pointwise on values; the triply periodic "
     "minimal surfaces follow their documented formulas with one period per direction, and in two dimensions they are the slice at the given z. Queries of radii, centres, axes and normals return the values the function was built with.",
     ["inputs"], "every parameter of the functions and every point (real values), two and three dimensions",
     "Tests integrate a few centred, axis-aligned shapes; the sign for rotated axes, unequal semi-axes or points near the axis is not checked.",
     ["cpp/qugar/impl_funcs_lib.cpp", "cpp/qugar/primitive_funcs_lib.cpp", "cpp/qugar/tpms_lib.cpp"],
     [("shapes", "cpp/qugar/primitive_funcs_lib.cpp"), ("combinations and transformations", "cpp/qugar/impl_funcs_lib.cpp"), ("minimal surfaces", "cpp/qugar/tpms_lib.cpp")])

prop("C09", "Gauss and tanh-sinh rules, and their tensor products, integrate as they promise",
     "The Gauss rule of n points (up to the largest tabulated number) has increasing abscissae inside the unit interval and positive weights, and integrates exactly (to rounding errors) every polynomial of degree up to 2n-1. The tanh-sinh rules are symmetric, have "
     "non-negative weights adding up to one, and converge for polynomials. A tensor-product quadrature over any box, with different numbers of points per direction, is the product of the one-dimensional rules mapped to the box, and scaling its weights "
     "multiplies each weight and moves no point.",
     ["inputs"], "every number of points of the tables, every polynomial within the degree of exactness, every box",
     "Tests integrate over the unit domain with a few numbers of points; a wrong entry of the tables or boxes away from the origin go unnoticed.",
     ["cpp/qugar/quadrature.cpp", "cpp/qugar/quadrature_lib.cpp", "cpp/include/qugar/quadrature.hpp"],
     [("tensor-product rules", "cpp/qugar/quadrature.cpp"), ("tables", "cpp/qugar/quadrature_lib.cpp")])

prop("C10", "Cells and facets of unfitted domains are classified by the region they intersect",
     "A cell of an unfitted domain is full if the function is negative all over it, empty if it is non-negative all over it, and cut otherwise, however small the part inside is, and whichever way the grid is decomposed; facets of cut cells, and of full cells whose facets lie on the zero level set, are classified likewise, "
     "telling apart the parts of a facet on the zero level set where the function grows outwards of the cell (unfitted boundary) from those where it grows inwards (external boundary). Bézier functions are classified as any other function with the same values. Every cell is exactly one of full, empty or cut; the lists of cells "
     "and facets returned by every query (of cells full, empty, cut, with or without unfitted boundary; of facets full, empty, cut, unfitted; over all or given cells, interior and exterior facets) are, in order and without repetitions, those for which the corresponding predicate holds.",
     ["inputs", "histories"], "every sign of the function over each cell and facet, every fraction, slope and status, every decomposition of the grids within the bounds",
     "Tests count cells for a few shapes in general position; level sets touching facets, slivers and single-cell decompositions, where statuses differ, hardly occur in them.",
     ["cpp/qugar/unfitted_domain.cpp", "cpp/qugar/unfitted_domain_binary_part.cpp", "cpp/qugar/impl_unfitted_domain.cpp"],
     [("classification", "cpp/qugar/impl_unfitted_domain.cpp"), ("decomposition of the grid", "cpp/qugar/unfitted_domain_binary_part.cpp"), ("queries", "cpp/qugar/unfitted_domain.cpp")])

prop("C11", "Cut quadratures hold each entity's own points, on the unit box, once",
     "The quadrature created for a list of cells or facets (with repetitions and in any order) stores, for each of them in turn, as many points as it says: the Gauss rule of the number of points asked for full ones, whatever rules were asked before; none for empty ones; and, for cut ones, every point generated in its part inside the domain, with coordinates relative to the cell or facet and weights relative to its "
     "measure. Points of the unfitted boundary carry the outward unit normal of the mapped boundary and the weight that preserves its measure, and those lying on facets are counted once: with the cell the boundary bounds, if requested (also on exterior facets, unless excluded), and never with its neighbour. The quadrature of facets for interior integrals holds "
     "the part of interior facets inside the domain, and that for exterior integrals the part of exterior facets in the domain plus the unfitted boundary. Bézier functions give only the points where they are negative.",
     ["inputs", "histories"], "every kind of cell, status of facets, node, weight and gradient (real values) within the bounds",
     "Tests add up weights over domains in general position; boundaries aligned with facets, external boundaries, and points counted twice or mapped with unequal lengths compensate or do not occur in them.",
     ["cpp/qugar/cut_quadrature.cpp", "cpp/qugar/impl_quadrature.cpp"],
     [("quadratures of single cells and facets", "cpp/qugar/impl_quadrature.cpp"), ("lists", "cpp/qugar/cut_quadrature.cpp")])

prop("C12", "Reparameterization meshes keep their cells, points and wires consistent",
     "Adding full cells places the nodes of each cell (equally spaced, or Chebyshev from order 7 on) at their positions in the cell's box in lexicographical order, with its edges as wires if requested; merging a mesh appends its cells, points and wires; scaling moves exactly the points asked for by the map between the boxes. Merging coincident points leaves "
     "every cell's nodes where they were, no two coincident points, no unused points, and each edge of the wires exactly once; doing it again changes nothing. Orienting cells transposes exactly those whose Jacobian is negative, or whose normal opposes the outward normal of the level set or facet. "
     "The wires generated for cells in a box are their non-degenerate edges lying on the box's edges, or on its faces and the level set (in two dimensions, also inside and on the level set). The reparameterization of an unfitted domain holds, for the cells asked for, each cut cell's part once and (unless only the level set is asked for) each full cell, and nothing of empty cells.",
     ["inputs", "histories"], "every position and size of the cells, every combination of kinds of cells, every position of an edge's ends within the bounds",
     "Tests compare numbers of points and cells of a few shapes; wrong connectivity, orientation or wires keep those numbers.",
     ["cpp/qugar/reparam_mesh.cpp", "cpp/qugar/impl_reparam_mesh.cpp", "cpp/qugar/impl_reparam.cpp", "cpp/qugar/lagrange_tp_utils.cpp"],
     [("meshes", "cpp/qugar/reparam_mesh.cpp"), ("orientation and wires", "cpp/qugar/impl_reparam_mesh.cpp"), ("unfitted domains", "cpp/qugar/impl_reparam.cpp")])

prop("P12", "The runtime shim is built once and is complete whenever it is given",
     "However many processes and threads ask for the runtime shim at the same time, and whichever of them is killed or sees its compiler fail at any moment, whoever is given the library finds it complete, not older than its source and its builder, and it is not removed or "
     "overwritten in place afterwards. It is built once if it is missing or out of date and not at all otherwise, nobody waits for ever, the failure of the compiler is reported, and later builds succeed. The compiler used is the one asked for in the environment, or one "
     "of the active installation, or the system's, in that order.",
     ["schedules", "crash_points", "configurations"], "every interleaving of two actors with bounded preemptions, every step at which one is killed or its compiler fails, every order of the files' times",
     "The test builds once with eight processes; the windows in which an unfinished library is visible last milliseconds, and no test kills a build.",
     ["python/qugar/dolfinx/_shim/__init__.py"],
     [("build, locks and cache", "python/qugar/dolfinx/_shim/__init__.py")], tech=SOLVER_PY)

prop("P13", "Just-in-time compilation returns the forms asked for and leaves no traces",
     "Compiling forms returns their compiled objects in order, the module, its code and the integrals' data of exactly those forms, the same whether they are compiled now or taken from the cache, which is used exactly when forms, options and compiler arguments are the same and never mixes up custom modules with "
     "FFCx's. Kernels are linked with the shim, the libraries and the arguments asked for, by the user's or Python's linker with its flags. Whatever fails is raised and a later attempt compiles again; in any case the root logger, the environment, the standard output and the arguments given "
     "are as before, and a module is announced as ready only once it is compiled.",
     ["crash_points", "configurations", "inputs"], "a failure at any call, every combination of the options, and every list of linker flags within the bounds",
     "Stable tests never call the compiler's driver; failures half-way and their traces in the process are never exercised.",
     ["python/qugar/dolfinx/jit.py", "python/qugar/dolfinx/compiler.py"],
     [("compilation, cache and linker", "python/qugar/dolfinx/jit.py"), ("stages", "python/qugar/dolfinx/compiler.py")], tech=SOLVER_PY)

prop("C14", "Files written for a reparameterization describe the mesh in VTK's terms",
     "Writing a reparameterization mesh to files leaves, under the name given, an XML unstructured grid with the mesh's points in order with coordinates that identify the very same numbers and zeros for those missing up to three, and one Lagrange cell of the mesh's dimension and order per cell, with the "
     "cell's nodes in VTK's order for the version the file declares, consecutive offsets and types; a second file describes the wires the same way as curves on the same points; and the multi-block index names both by their files. Nothing else is written and the mesh is unchanged; empty meshes give valid empty files.",
     ["inputs"], "every mesh within the bounds: any coordinates, any nodes of cells and wires, every dimension",
     "No stable test writes a file. A wrong node order draws bulging cells that look like errors of the geometry, and depends on the order and the VTK version.",
     ["cpp/qugar/reparam_mesh.cpp"],
     [("files", "cpp/qugar/reparam_mesh.cpp: write_VTK_file, write_reparam_to_VTK_cells")])

prop("P14", "Reparameterizations become DOLFINx meshes with the same geometry",
     "The DOLFINx mesh of a reparameterization has its cells, with their points, its topological and geometrical dimensions, its degree and its precision, and its geometry map takes every reference point where the reparameterization takes it. No cell is moved to another process and every process takes part. Wires give a "
     "mesh of curves the same way. Reparameterizing asks for degree + 1 points per direction (degree 3 unless another is given), of the boundary or of the interior as requested, with the wires if they are wanted, and data is interpolated over all the local cells and their ghosts.",
     ["inputs", "configurations"], "every position of the points within the bounds, every dimension, degree and selection of cells or wires",
     "No stable test creates a mesh: nodes slightly off their place distort curved cells without breaking anything.",
     ["python/qugar/reparam/reparam.py"],
     [("meshes", "python/qugar/reparam/reparam.py")], tech=SOLVER_PY, note=NOTE_PY)

prop("P15", "Linear and nonlinear problems solve exactly the system of their forms",
     "Each time a linear problem is solved, the solver gets the matrix and the vector of the forms for the coefficients at that moment, with the boundary conditions lifted, set, and contributions of other processes added once; nothing is left from former solutions. The residual and the Jacobian of a nonlinear problem are those of "
     "its forms at the point given, with conditions imposed on the residual as the difference to the prescribed value. The solution's ghosts are updated, and options, prefixes, existing functions and just-in-time arguments given by the user are the ones used.",
     ["histories", "inputs"], "every value of the forms and conditions, every sequence of solutions and evaluations within the bounds",
     "No stable test solves a problem; leftovers of a former assembly only appear from the second solution on, and ghosts with several processes.",
     ["python/qugar/dolfinx/petsc.py"],
     [("problems", "python/qugar/dolfinx/petsc.py: LinearProblem, NonlinearProblem")], tech=SOLVER_PY, note=NOTE_PY)

prop("P16", "Requested rules, degrees, coefficients and versions are honoured",
     "Every quadrature rule of the integrals of the forms being compiled is described once, under its own name, with its points and weights, the highest of the degrees asked by the integrals that share it, and the mark of unfitted boundaries if it is for them. Integrals without points of their own get the rule of their cell, type, "
     "degree and scheme, as a tensor product exactly for cells when sum factorization is on; the integrals' metadata is not modified. Scalars are assembled with the constants and coefficients given, and with the form's own for those left out. A version is accepted exactly from the minimum to below the maximum, compared as numbers and whatever its suffix.",
     ["inputs", "configurations"], "every combination of integrals, rules and degrees, every version within the bounds",
     "Stable tests never compile forms with several integrals and see only the versions installed.",
     ["python/qugar/dolfinx/quadrature_data.py", "python/qugar/dolfinx/_dolfinx_patches.py", "python/qugar/utils.py"],
     [("requests of quadratures", "python/qugar/dolfinx/quadrature_data.py"), ("scalars", "python/qugar/dolfinx/_dolfinx_patches.py"), ("versions", "python/qugar/utils.py")], tech=SOLVER_PY, note=NOTE_PY)
prop("P17", "Functions of the Python interface are the ones asked for",
     "The functions created with qugar.impl (spheres, disks, planes, lines, cylinders, tori, annuli, ellipsoids, ellipses, boxes, constants, linear functions, dimension-linear functions, triply periodic minimal surfaces, negatives, sums, subtractions, transformed ones) are of the kind, dimension and polynomial or general variant asked for and have the parameters given, or the documented defaults for those left out. "
     "Parameters out of range (non-positive radii and semi-axes, points or axes of the wrong size) are rejected. Values and gradients evaluated from Python are those of the function at the points given, in their precision.",
     ["inputs", "configurations"], "all parameters and combinations of optional arguments within the bounds",
     "Stable tests create no function from Python (the compiled wrappers are missing) and demos use one value of each parameter.",
     ["python/qugar/impl/impl_function.py"],
     [("factories of functions", "python/qugar/impl/impl_function.py")], tech=SOLVER_PY, note=NOTE_PY)
prop("P18", "Plots show cells, facets, points and wires in their place with their data",
     "The PyVista objects of unfitted domains hold exactly the cells or facets of the kinds asked for (full, cut, empty), each once, at its place in the grid, with its status and its indices, for C++ domains and for domains of DOLFINx meshes with their renumbered cells. Objects of quadratures hold every point at its place with its weight, cell and facet and, on unfitted boundaries, its normal. "
     "Objects of reparameterizations hold every cell with its nodes in the order of VTK's Lagrange cells, and the wires along its edges.",
     ["inputs", "histories"], "all grids, statuses, numberings and quadratures within the bounds",
     "PyVista is not installed where the tests run: no test executes this code.",
     ["python/qugar/plot/pyvista_tools.py"],
     [("plots", "python/qugar/plot/pyvista_tools.py")], tech=SOLVER_PY, note=NOTE_PY)
prop("N01", "Quadratures of curved cuts integrate with the order of their number of points",
     "For every implicit function with curved zero level sets, the quadratures of cut cells and boundaries converge to the exact integrals with the order promised by their number of points per direction.",
     ["inputs"], "all implicit functions, grids and numbers of points",
     "Tests compare a few shapes with stored values.",
     ["cpp/qugar/cut_quadrature.cpp", "cpp/qugar/impl_quadrature.cpp"],
     [("calls of algoim's quadratures", "cpp/qugar/impl_quadrature.cpp")],
     na="the nodes and weights of curved cuts are computed by algoim (root finding, Gauss and tanh-sinh rules), a dependency whose headers are not in the sandbox, and the claim is a limit, for which no bound exists; what QUGaR does with the nodes (C11, C09) and with roots (C15) is decided for every possible result instead")
prop("N02", "Distributed meshes give the same results whatever the number of processes",
     "Unfitted domains, numberings and integrals on a mesh distributed among any number of MPI processes are those of the mesh on a single one.",
     ["schedules", "configurations"], "all partitions of the mesh and numbers of processes",
     "Tests run on one process.",
     ["python/qugar/mesh/tp_mesh.py", "python/qugar/mesh/unfitted_cart_mesh.py"],
     [("construction of meshes", "python/qugar/mesh/tp_mesh.py")],
     na="partitioning, ghost layers and exchanges happen inside DOLFINx and MPI, neither of which is in the sandbox; a model of them would decide the model's behaviour. P04 decides the renumbering and the cells that one process owns")
prop("N03", "Compiled bindings pass arguments and results unchanged between Python and C++",
     "Every function of the extension module receives the values given in Python and returns those of the C++ library, sharing or copying memory as documented.",
     ["inputs"], "all functions of the module and arguments",
     "Tests that need the compiled module do not run here.",
     ["python/nanobind_wrappers/wrapper_utils.hpp"],
     [("wrappers", "python/nanobind_wrappers/wrapper_utils.hpp")],
     na="nanobind's headers are not in the sandbox, so the wrappers cannot be compiled to the intermediate representation that is executed; a stand-in of nanobind would replace the conversions that the property is about")
