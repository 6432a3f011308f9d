p("P01", "Every integral carries the quadrature measure exactly once",
  "Every contribution a weak form adds to an element residual or element matrix, and every contribution a norm or error functional adds to its sum, is a quadrature sum in which each point enters with exactly one factor of its quadrature weight and exactly one factor of the Jacobian determinant of the cell being integrated. Derivatives enter as physical derivatives: reference derivatives are converted with the inverse Jacobian (scalar families) or with one division by the determinant (divergence of normal-continuous families).",
  ["inputs", "configurations"], "all meshes, cell shapes and sizes, dimensions, polynomial orders, material functions and states, for every weak form and error functional in the library",
  "The existing tests evaluate only the L2 projector weak form on one mesh; a missing or doubled factor in any other form, branch or boundary term is never executed.",
  WF + ["src/postprocess/l2_error_post_processor.py", "src/postprocess/solution_norms_post_processor.py"],
  "weights/det_jac factors inside each evaluate_form and error functional")
p("P02", "Fields occupy consecutive blocks and are paired with their own basis",
  "In the element residual and matrix of every weak form the unknowns of the fields occupy consecutive, non-overlapping index ranges in declaration order, with the components of a field interleaved with that field's own component count. Coefficients read from a field's range are combined only with that field's shape functions, and equations written to a field's range are tested only with that field's shape functions.",
  ["inputs", "configurations"], "all element orders, component counts, dimensions and states",
  "Multi-field forms are not run by the tests, and a wrong offset or stride is invisible whenever two fields happen to have equally many unknowns.",
  WF, "index arithmetic n_*_dof / n_*_phi / *_components and slices of alpha, el_form, r_el, j_el")
p("P03", "Weak forms assemble exactly their declared terms",
  "For every weak form, in every supported dimension, the integrand assembled for each test field is exactly the sum of the terms of the variational problem it implements: each term present once, with its sign, numerical factor, material coefficients and field operators. A form that offers both an automatically differentiated and a vectorised evaluation assembles the same variational problem in both.",
  ["inputs", "configurations"], "all states, coefficient functions, dimensions 1-3 and polynomial orders",
  "No test evaluates these forms; a sampled state cannot distinguish a wrong coefficient that happens to equal one or a term that vanishes for the sample.",
  WF, "integrand expressions of evaluate_form and evaluate_form_vectorized")
p("P04", "Residual and Jacobian come from one expression at the given state",
  "A weak form returns a residual and a Jacobian that belong together: differentiated forms return the value and the derivative of the same accumulated expression, evaluated at exactly the coefficient vector the caller passed in. Boundary penalty forms use the same penalty, trace and measure in the matrix as in the vector, and symmetric off-diagonal couplings are written as transposes of each other.",
  ["inputs", "histories"], "all incoming states, including every iterate of a nonlinear or time-stepping history",
  "Tests call forms only with a zero state, at which a form that ignores its state is indistinguishable from a correct one.",
  WF, "alpha -> AutoDiff -> el_form.val / el_form.der; r_el / j_el pairs")
p("P05", "Assembly gathers, evaluates and scatters on the same unknowns, additively",
  "For every kind of form the assembler reads the state at the unknowns of the element (time-dependent boundary forms: the first of the two states), evaluates the form once per item of its sequence, and adds the element residual and every entry of the element matrix at exactly the global unknowns of that element (rows and columns in row-major order), also when an unknown occurs more than once in the element. Contributions are only ever added to the global arrays, never overwrite them or are dropped, and every registered form kind is dispatched to the scatter routine and arguments it requires.",
  ["inputs", "histories", "configurations"], "all meshes, spaces, form kinds, element sequences and orders of registration",
  "The assembler is never run by the tests, and the repeated-index case needs special spaces.",
  ["src/assembly/ScatterFormData.py", "src/assembly/SequentialAssembler.py", "src/postprocess/projectors.py"],
  "destination index flow from destination_indexes to setValue/res_g")
p("P06", "Global unknown numbers are disjoint, gap-free and consistently shifted",
  "Every unknown of a product space has exactly one number: each field owns one consecutive block in declaration order, inside it each entity dimension owns one consecutive block sized by its entities, unknowns per entity and components, and the total equals the reported size. Element, boundary and per-field lookups of one space return the same numbers, including the global shift, in the order of the reference element (vertices, edges, faces, interior).",
  ["inputs", "configurations"], "all meshes, orders, component counts, field combinations and shifts",
  "Tests use single-field spaces with zero shift, for which offsets, shifts and multi-field order play no role.",
  ["src/spaces/dof_map.py", "src/spaces/product_space.py", "src/spaces/md_product_space.py"],
  "global_indices ranges, stride accumulation, dof_shift")
p("P07", "Family, cell and dimension dispatch is faithful and total",
  "Each of the five element-family names selects that family and every other name is rejected; each dimension 0-3 selects the matching cell type (and name, in every table of cell names by dimension) and every other dimension is rejected. For every family, dimension, continuity and dimension of the mesh, the numbering of the unknowns and the elements of a field are built on the same reference element (same family, cell type, degree, continuity and points; vector families degrade to Lagrange on points and segments only, and their shape functions, and only theirs, are mapped along a segment); the boundary elements of the field have the cell type, family and degree of its traces, so they have one function for each unknown of a facet. The fields of a product space share an integration order of twice the highest degree plus one, and there is a quadrature rule of that degree on every dimension on which a field, or the boundary of a field, lives.",
  ["inputs", "configurations"], "all family names, dimensions 0-3, continuity, mesh dimensions and orders (at least 1; 0 on points)",
  "Tests use Lagrange, BDM, RT and N1E only, in two or three dimensions, and no boundary elements of most families.",
  ["src/basis/element_family.py", "src/basis/element_type.py", "src/basis/finite_element.py", "src/spaces/discrete_space.py", "src/spaces/dof_map.py", "src/spaces/product_space.py", "src/spaces/md_product_space.py", "src/mesh/mesh_cell.py", "src/mesh/mesh.py", "src/postprocess/solution_post_processor.py"],
  "family_by_name, type_by_dimension, family properties, cell-type tables, boundary element selection, quadrature orders")
p("P08", "All parts agree on the local numbering of vertices, edges and faces",
  "The local order of the vertices, edges and faces of a simplex is one convention, that of the reference element. For every order of the node tags of a cell: the mesh registers every edge, face and volume of every cell under its sorted node tags and stores the sub-entities of a cell position by position in the reference order of its node tags; the entity graph lists them in that order; shape functions that belong to an edge are reflected exactly on the elements where the edge runs against the direction all its elements share, those that belong to a face are turned by the permutation of its vertices (on facets with a physical tag, local faces 1 and 3 are reflected once), no other unknown is transformed; and a point given on a facet is placed in the element behind it at the vertices with the same node tags, whatever order the facet lists them in. A physical tag given for a cell goes to that cell only.",
  ["inputs", "configurations"], "all simplex meshes, vertex orders, facet orders and stored edge directions",
  "The tests exercise a few meshes whose error norms do not depend on most of the entries; the tables are repeated in several places that must be changed together.",
  ["src/mesh/mesh.py", "src/mesh/mesh_cell.py", "src/basis/permute_and_transform.py", "src/basis/parametric_transformation.py"],
  "constant connectivity tables and their positional use")
p("P09", "Identifiers of different kinds are never interchanged",
  "Cell identifiers, node numbers, element positions, topological (dimension, identifier) pairs, physical tags and unknown numbers are different kinds of identifiers; each container is accessed only with identifiers of the kind it is keyed by, and a query documented to return one kind returns that kind on all paths. Conversion between kinds happens only through the maps that define the correspondence.",
  ["inputs", "histories"], "all meshes and modification histories, in particular those in which the kinds do not coincide numerically",
  "On small freshly built meshes several kinds coincide numerically (node number equals vertex cell identifier), so tests pass with the wrong kind.",
  ["src/mesh/mesh.py", "src/mesh/mesh_operations.py", "src/mesh/mesh_topology.py", "src/mesh/mesh_coloring.py", "src/basis/basis_trace.py", "src/spaces/dof_map.py", "src/spaces/product_space.py", "src/postprocess/solution_post_processor.py"] + WF,
  "indexing of cells, points, elements, id_to_element, entity graphs")
p("P10", "Points, weights, mapping and basis of an evaluation belong together",
  "Wherever shape functions are evaluated, the quadrature rule is the one for the dimension of the cell being integrated (interior rule for interior elements, boundary rule for boundary elements), and the mapping data passed with the points was computed from the same points on the same cell and in its own argument position. The mapping of a cell consists of the positions, Jacobians, positive measures and (pseudo-)inverses at exactly the points asked for, computed from the vertices of that cell; shape functions are those of the reference element at the same points, mapped with it, point by point; what an element stores for its rule are these values, each under its own name. Traces onto a boundary are evaluated on the chosen neighbouring cell at the image of the boundary points, with the mapping of the neighbouring cell at those points, and select the functions of that boundary cell.",
  ["inputs", "configurations"], "all cells, dimensions, rules and trace configurations",
  "Only interior evaluation in one form is tested; boundary, interface and post-processing evaluations are not.",
  WF + ["src/basis/basis_trace.py", "src/basis/finite_element.py", "src/postprocess/l2_error_post_processor.py", "src/postprocess/solution_post_processor.py"],
  "evaluate_mapping / evaluate_basis call pairs and quadrature[dim] selection")
p("P11", "A caller's geometric tolerance governs every comparison of a query",
  "When a geometric or topological query accepts a tolerance, every coincidence, incidence or parallelism decision made on its behalf, in it and in the queries it delegates to, uses that tolerance. Changing the tolerance argument of the outer query therefore changes all of its decisions consistently. The only fixed tolerance is the library-wide collapse tolerance that snaps a given point onto an end point or corner it coincides with.",
  ["inputs"], "all geometries and tolerances",
  "Tests call the queries with the default tolerance, for which a dropped or fixed tolerance makes no difference.",
  ["src/geometry/operations/point_geometry_operations.py", "src/geometry/operations/line_geometry_operations.py", "src/geometry/operations/polygon_geometry_operations.py", "src/topology/operations/vertex_operations.py", "src/topology/operations/edge_operations.py", "src/topology/operations/domain_operations.py"],
  "eps / p_eps parameters and their forwarding")
p("P12", "Queries and evaluations never modify their inputs",
  "Evaluating a weak form, a basis, a mapping, a projection, a norm, a geometric predicate or a topological intersection leaves the caller's arrays, functions, mesh, spaces and shapes exactly as they were, apart from the result containers the caller passed to be filled. Calling such an operation twice therefore gives the same result twice, and shared defaults are never altered by a call.",
  ["inputs", "histories"], "all inputs, all aliasing between inputs, and all call sequences",
  "Tests call each operation once on fresh data, where damage to the inputs goes unnoticed.",
  ["src/weak_forms", "src/basis", "src/geometry", "src/topology/operations", "src/postprocess", "src/spaces/product_space.py"],
  "writes through parameters, aliases of parameters and default arguments")
p("P13", "Intersection queries report a miss in one way and a hit in one shape",
  "Each single intersection query answers every input with None for a miss and with one value of its documented kind for a hit (a point, a vertex), on every path. Batch queries drop exactly the misses, return only hits, and pair each hit with the tool, index or flag of the input that produced it; callers test a result for a miss the way the query reports one.",
  ["inputs"], "all geometric configurations including parallel, coincident, touching and disjoint ones",
  "The tests cover a few generic configurations; degenerate paths return values of another kind that only fail in a caller.",
  ["src/geometry/operations/point_geometry_operations.py", "src/geometry/operations/line_geometry_operations.py", "src/geometry/operations/polygon_geometry_operations.py", "src/topology/operations/vertex_operations.py", "src/topology/operations/edge_operations.py"],
  "return statements of *_intersection and the filters of the plural wrappers")
p("P14", "New topological shapes get fresh tags and shape equality is complete",
  "A shape is identified by its dimension and its tag. Every shape that a topological operation creates (intersections and differences of vertices, edges, faces and domains, and the builders of domains) receives a tag that no other shape of the same dimension created in the same operation has and that is larger than the tags the operation was told are in use; no placeholder tag is handed out. Collections of shapes are keyed by (dimension, tag), never by a value that two different shapes may share. Two shapes compare equal exactly when their dimension, tag, boundary shapes and immersed shapes all agree, and two vertices when dimension, tag and point agree; the inequality is the negation of the equality.",
  ["inputs", "histories"], "all shape sets and operation sequences",
  "Tests inspect counts of a few resulting shapes, not tag collisions across many intersections.",
  ["src/topology/shape.py", "src/topology/vertex.py", "src/topology/operations/vertex_operations.py", "src/topology/operations/edge_operations.py", "src/topology/operations/domain_operations.py", "src/topology/shape_manipulation.py", "src/topology/domain_market.py", "src/topology/domain.py"],
  "tag counters of the operations and builders; Shape.__eq__, Vertex.__eq__; create_domain")
p("P15", "Conformity cuts keep cells, points and references consistent",
  "After a conformity cut (along fractures, embedded shapes or lines) the identifier of each cell is its position in the list of cells. Every duplicated cell is stored exactly once, owns its lists, lists itself in its own dimension, and every duplicated vertex has a point of its own, with the coordinates of the original. A reference or node tag is replaced only by the duplicate of what it named, in cells that touch the cut and are not part of it; the cells on the two sides of a cut and the duplicates of these sides are connected to different duplicates, with vertices and node tags in step. Cells that an earlier cut added take part in the next one. The result pairs the two duplicates of each cell of the cut, the positive side first. The incidence graphs hold exactly the pairs of the selected cells and their sub-cells of the requested dimension.",
  ["inputs", "histories"], "all meshes, fracture sets and cut sequences",
  "The tests check counts on a few networks; crossing cuts and the references of every cell are not inspected.",
  ["src/mesh/mesh.py", "src/mesh/mesh_operations.py", "src/mesh/mesh_cell.py"],
  "cut_conformity_on_fractures_mds_ec, cut_conformity_on_embed_shapes, cut_conformity_along_c1_line(s), update_cells_with_cell_pairs, build_graph*, MeshCell.clone")
p("P16", "Mesher sessions and files are opened, used and closed in order",
  "Every conversion that uses the external mesher initialises it before the first use, synchronises the geometry model before meshing or querying it, writes only after meshing, and finalises it on every normal exit; every file opened by the library is closed on every exit.",
  ["inputs", "histories"], "all domains, dimensions and call sequences",
  "Tests run one path per mesher class; other branches and early exits are not run.",
  ["src/mesh/conformal_mesher.py", "src/mesh/discrete_domain.py", "src/mesh/mesh.py"],
  "gmsh.initialize/synchronize/generate/write/finalize call order")
p("P17", "Every reference and internal call of the library resolves",
  "No operation of the library can fail because it refers to a name, module member, method or attribute that does not exist, or calls one of the library's own functions with arguments its signature does not accept, whatever branch is taken.",
  ["inputs", "configurations"], "all branches of all functions",
  "Most branches are not executed by any test, and Python resolves names only when a line is executed.",
  ["src"], "names, attributes and call signatures across all modules")
p("P18", "Exported arrays describe the same entities in the same order",
  "Every exported file lists connectivity, tags, identifiers, colours and cell-centred values over the same selection of cells in the same order, so that row k of each array describes cell k; the cells of a file are of one dimension, stored with their own node tags under the name of that dimension and in the file of that dimension. Point data has one row for each point of the mesh, and row i holds the value of node i: the exact solution at that node, or the discrete field averaged over the elements of the field around that node. An array carries the name of the field whose values it holds and has a column for each of its components, and a discrete value in a cell or at a node is taken from the element, the unknowns and the geometry of that cell, at its centre or at the vertex that is that node.",
  ["inputs", "configurations"], "all meshes, physical tags, field combinations and dimensions",
  "No test inspects exported data.",
  ["src/mesh/mesh.py", "src/postprocess/solution_post_processor.py"],
  "list comprehensions with filters building parallel arrays; node_average_quatity, cell_centered_quatity")
p("P19", "Global quantities accumulate over all selected elements",
  "Norms, errors, averages and counts are accumulated over every element of the requested dimension and field: no element's contribution replaces that of another, no element is skipped other than by the documented selection, and each field starts from zero. The contribution of an element to a norm or error is the integral over it of the square of the quantity the functional is named after (value, difference, gradient, divergence, deviator) of the discrete function given by the unknowns at that element's own (shifted) numbers and of the given function of that field. The sizes reported for a mesh are minimum, mean and maximum over exactly the cells of the dimension and tag asked for.",
  ["inputs"], "all meshes, fields and selections",
  "On one-element or symmetric examples overwriting and accumulating give the same result; most functionals are untested.",
  ["src/postprocess/l2_error_post_processor.py", "src/postprocess/solution_norms_post_processor.py", "src/mesh/mesh_metrics.py", "src/spaces/product_space.py"],
  "loop-carried accumulators")
p("P20", "Results depend only on the arguments",
  "Two runs of the library with the same inputs produce the same numbering, matrices, meshes and files: no result depends on random numbers, clock values, memory addresses, hash seeds, iteration order of unordered containers, or module-level state left by earlier calls.",
  ["histories", "schedules", "configurations"], "all call histories and interpreter hash seeds",
  "A test process has one hash seed and one call history.",
  ["src"], "sources of nondeterminism and mutable module/default state")
p("P21", "Discrete solutions converge at the optimal order",
  "On smooth problems the discrete solution of each supported mixed or primal formulation converges in its natural norm at the order given by its polynomial degree.",
  ["inputs", "configurations"], "all smooth data, meshes and orders", "Only sampled meshes and orders can be run.",
  WF, "numerical analysis of the whole pipeline")
p("P22", "Projection reproduces functions of the discrete space",
  "Projecting a function that belongs to the discrete space returns that function to rounding accuracy.",
  ["inputs"], "all members of each discrete space", "Tests sample one polynomial per order.",
  ["src/postprocess/projectors.py"], "linear solve and basis evaluation")
p("P23", "Reported intersections are geometrically correct",
  "A reported intersection point lies on both geometric objects within the tolerance, and a miss is reported only when the objects do not meet within it.",
  ["inputs"], "all floating-point coordinates", "Tests sample configurations.",
  ["src/geometry/operations"], "floating-point predicates")
p("P24", "A conformity cut separates the mesh exactly along the cut set",
  "After a conformity cut, two cells on opposite sides of a cut shape share no entity on the cut except where the cut set ends, and the cut faces form closed circulations.",
  ["inputs"], "all fracture networks", "Tests count entities on a few networks.",
  ["src/mesh/mesh_operations.py", "src/mesh/mesh.py"], "graph traversal over run-time data")
p("P25", "Facet normals are outward unit normals",
  "The normal that boundary terms of the formulations use is, for every cell, every one of its facets and every order in which the vertices of the facet are listed, a vector of length one that is orthogonal to the facet, lies in the line or plane of the cell, and points out of the cell.",
  ["inputs"], "all non-degenerate cells of dimension 1 to 3, facets and vertex orders, embedded in three dimensions",
  "Tests use axis-aligned meshes whose facets happen to be listed in one direction, so that the correcting branches are not taken.",
  ["src/geometry/compute_normal.py"],
  "normal: directions of the facet, cross products, normalisation, reversal")

p("P26", "Measures and intersection points satisfy their definitions",
  "Areas, volumes, centres, rotations, diameters of cells and sizes of meshes are those of their geometric definitions for every placement of the points. Two lines that meet are reported as meeting exactly when the common point belongs to both segments, and the point reported is that point; a point of a line or plane counts as part of a segment or triangle exactly when it lies in it; the intersection of a line and a plane lies on both.",
  ["inputs"], "all placements of the points, in real arithmetic, away from the tolerances",
  "Tests use a few axis-aligned points with small integer coordinates, for which wrong factors, exchanged products or missing bounds give the same answer.",
  ["src/geometry/operations/point_geometry_operations.py", "src/geometry/operations/line_geometry_operations.py", "src/geometry/operations/triangle_triangle_intersection_test.py", "src/mesh/mesh_cell.py", "src/mesh/mesh_metrics.py"],
  "measurements, line_line_intersection, point_line_intersection, point_triangle_intersection, point_in_triangle, rotations, cell_diam, mesh_size")
