"""Property -> check."""
from . import check_det, check_effects, check_forms, check_refs, check_session, check_tags, check_tol, check_miss, check_scatter, check_dofs, check_local, check_family, check_export, check_sum, check_integrals, check_kinds, check_mesh

CHECKS = {}


def check(prop, rule, explanation, technique, level_note, **kw):
    def deco(fn):
        CHECKS[prop] = dict(run=fn, rule=rule, explanation=explanation, technique=technique,
                            level_note=level_note, **kw)
        return fn
    return deco


FORMS_NOTE = ("Abstract interpretation of every weak form over arrays whose axes are quadrature points, "
              "unknowns of declared fields or constants and whose entries are polynomial value numbers; "
              "each residual row and matrix block is compared with an independent statement of the "
              "variational problem (nfcheck/specs.py). Joins merge branches with indicator atoms; no "
              "code of the repository is executed and no solver is used. ")


def forms_check(prop):
    def run(program, res, tier):
        res.info["weak_form_instances"] = check_forms.run(program, prop, res)
        if prop in ("P01", "P10"):
            check_integrals.run(program, prop, res)
        if prop == "P10":
            from . import check_points
            check_points.run(program, res)
    return run


for _p in ("P01", "P02", "P03", "P04", "P10"):
    check(_p, check_forms.RULES[_p], FORMS_NOTE,
          technique="static abstract interpretation: algebraic value numbering of element integrals over typed array axes",
          level_note="Decides the property for all inputs of the listed functions under the stated model of numpy "
                     "array operations, of the basis tabulation layout and of auto_diff arithmetic; values the model "
                     "cannot follow are reported as undecided, never as violations.", min={"P01": 1800, "P02": 1720, "P03": 1720, "P04": 80, "P10": 2050}[_p])(forms_check(_p))


@check("P17", "each name, import, attribute, property assignment and call of every function in src is resolved against the "
       "definitions visible there; a local name is used only where some path has assigned it",
       "Whole-program resolution: lexical scopes with star imports expanded, a flow-insensitive type inference over the "
       "whole library (constructors, attributes, properties, containers, call-site argument types) and may-assigned names "
       "per function. Interfaces of numpy, networkx, gmsh and the other libraries are read from the installed packages.",
       technique="static name, type and signature resolution over the syntax trees",
       level_note="A reference is reported only when no alternative of the inferred type provides it; where the type is "
                  "unknown the attribute name must exist on some class of the library or of the libraries it imports.",
       min=31000)
def p17(program, res, tier):
    check_refs.run(program, res, tier)


@check("P11", "in every function or class that takes a tolerance, each closeness test and each comparison with a tolerance uses "
       "it, and each call of a function with a tolerance parameter receives it; a point may be snapped onto an end point "
       "with the library-wide collapse tolerance",
       "Interprocedural data flow of tolerance parameters (found by their library default or by their use as rtol/atol), "
       "through local names, closures, partial applications and attributes, to closeness tests and delegated queries.",
       technique="static interprocedural data-flow analysis of tolerance parameters",
       level_note="Flow-insensitive inside a function: a local name carries the tolerance only if all its assignments do.",
       min=115)
def p11(program, res, tier):
    check_tol.run(program, res, tier)


@check("P12", "no function writes to the memory of an argument, or a query to its object, through any chain of calls, views and "
       "containers, except the result containers and edited objects of the listed editing operations; a mutable default value "
       "is never written",
       "Interprocedural may-write analysis: every value is followed to the parameter and access path it came from (array views, "
       "containers, attributes, constructor fields, property accessors, partial applications, closures), every in-place "
       "operation is a write to those paths, and the writes of a callee are translated to the arguments of each call.",
       technique="static interprocedural alias and mutation analysis over access paths",
       level_note="User-supplied callables and library functions without an out argument are taken to be pure; values whose "
                  "location inside an object is not known (shallow copies) are not reported.",
       min=900)
def p12(program, res, tier):
    check_effects.run(program, res, tier)


@check("P20", "no function uses random numbers, clock readings, the environment, addresses or hashes in a result; the order of a set "
       "or of a directory listing never reaches a result; numbers are written before they are read; nothing at module, class or "
       "function level and no default value is changed by a call",
       "Source and sink analysis of non-deterministic values over all functions (clock readings are followed through locals, "
       "parameters, attributes and results), set-valued expressions and their consumers, unwritten arrays, and the writes of the "
       "alias analysis to module-level, class-level and default objects; a module-level table that only remembers values determined "
       "by its key is accepted.",
       technique="static source/sink and shared-state analysis over the syntax trees and the alias summaries",
       level_note="The external libraries (mesher, linear solver, threads inside numpy) are taken to be deterministic; timing output "
                  "that is only printed is not a result.",
       min=480)
def p20(program, res, tier):
    check_det.run(program, res, tier)


@check("P16", "on every path through an operation that uses the mesher it is initialised before use, geometry changes are synchronised "
       "before physical groups, embedding, meshing or queries, a mesh exists before refinement and writing, and the operation that "
       "completes the conversion finalises the session on every normal exit; every opened file is closed on every exit",
       "Typestate analysis of the mesher session (closed, open, geometry kernels with unsynchronised changes, meshed) over all paths of "
       "the public operations with calls inlined and correlated branch conditions kept; files are tracked to a with statement or a "
       "finally block.",
       technique="static interprocedural typestate analysis over the syntax trees",
       level_note="Loops that drive the mesher are taken to run at least once; an operation that continues a session starts in the state "
                  "its class leaves open.",
       min=160)
def p16(program, res, tier):
    check_session.run(program, res, tier)


@check("P13", "every return of a singular query is None or an array of points with the number of axes of its hits (a vertex with one "
       "point for topological queries); every batch query keeps and flags an answer exactly when it is a hit, in one list over all "
       "its inputs; answers are told from misses by identity with None",
       "Forward abstract interpretation of the queries over kinds of values (absent, truth value, number, array with a number of axes, "
       "vertex, tuple, list, object array) with refinement at conditions; the selection and flag predicates of the batch queries are "
       "evaluated for each kind of answer.",
       technique="static abstract interpretation over value kinds and array ranks",
       level_note="Which inputs hit is not decided, only what the answer looks like; arrays with three axes are admitted for several "
                  "crossings of a line with a triangle, as the callers expect.",
       min=80)
def p13(program, res, tier):
    check_miss.run(program, res, tier)


@check("P14", "along every path of every operation that creates shapes, a tag is given to a shape only if it is larger than every tag "
       "of that dimension used before in the operation and than the tags the operation was told are in use, and no placeholder tag is "
       "handed out; shapes compare equal exactly when dimension, tag, boundary and immersed shapes (vertices: dimension, tag, point) "
       "agree; containers of shapes are keyed by dimension and tag",
       "Forward abstract interpretation of the operations with their callees inlined: an integer is a symbolic base plus an offset, "
       "every base carries intervals for its distance to the largest tag used in each dimension, maxima over the tags of a collection "
       "are related to the shapes it holds; loops run to a fixed point. Equality is evaluated for every combination of agreeing and "
       "differing components.",
       technique="static abstract interpretation with difference intervals between counters and used tags",
       level_note="An operation that is given a domain is taken to return all of its shapes, and the tags of a domain of the library "
                  "to fill 0..n-1 in each dimension when its length is used as the next tag; tags supplied by the user are fresh.",
       min=160)
def p14(program, res, tier):
    check_tags.run(program, res, tier)


@check("P05", "for each documented form type, every item of its sequence is evaluated once with the state gathered at the unknowns of its "
       "element(s), every entry of the element residual is added to the global residual at its own unknown and every entry of the element "
       "matrix at (row unknown, column unknown), exactly once, in add mode, without a filter on other than zero entries; the projector "
       "assembles the same way over all elements and solves with minus the residual",
       "The assembler's entry point and the projector are interpreted over value terms (opaque space, form, sequence, state; loops over "
       "unknown sequences as one generic iteration with bound indices); the updates of the residual and the matrix form a set of "
       "contributions (index expressions, value, conditions, index ranges) compared with the set the property asks for.",
       technique="static abstract interpretation over value terms with generic loop iterations (value numbering of scatter indices)",
       level_note="The element vector and matrix are taken to have as many rows and columns as the element has unknowns; within one "
                  "element the unknown numbers are distinct, between the two elements of an interface they may repeat.",
       min=40)
def p05(program, res, tier):
    check_scatter.run(program, res, tier)


@check("P06", "for every space dimension and every pattern of entity dimensions without unknowns, entity number r of dimension d owns "
       "the numbers start_d + r*components*q_d .. with start_d the sizes of the lower dimensions plus the shift, the reported size is "
       "their sum, element lookups list the entities of the cell by dimension in graph order, boundary lookups those of the boundary "
       "cell with the same numbers; field i of a product space is offset by the sizes of the fields before it plus the shift in all "
       "lookups; elements, identifiers and entity lists of a field belong to each other",
       "The numbering classes are interpreted over value terms on an opaque mesh and opaque fields; numbers are polynomial terms in the "
       "rank of an entity in its list, unknowns per entity, components, sizes and shift, compared with those of a consecutive block "
       "numbering.",
       technique="static abstract interpretation over value terms (symbolic index polynomials, ranks in entity lists)",
       level_note="Product spaces with one to three fields; entity lists are not empty and hold distinct identifiers; whether the entity "
                  "graph lists the sub-entities of a cell in reference order is not decided here.",
       min=405)
def p06(program, res, tier):
    check_dofs.run(program, res, tier)


@check("P08", "for every ordering of the vertices of a cell: the vertices, edges and faces the mesh stores for it are, position by "
       "position, those of the reference element, found under their sorted vertices, all registered before; the entity graph lists "
       "them in that order; shape functions of an edge are reflected exactly where the element runs against the direction shared with "
       "its neighbours, those of a face are turned by the permutation of its vertices, nothing else is transformed; points of a facet "
       "are placed in the element behind it at the vertices with the same node tags",
       "The mesh builder, the orientation code and the facet map are interpreted over value terms, once per order type of the vertex "
       "tags (2, 6 or 24 orderings), per direction of the stored edges and per facet and facet ordering; the results are compared with "
       "the reference tables of the element library.",
       technique="static abstract interpretation over value terms, exhaustive in the order types of the vertex tags",
       level_note="The vertex tags of a cell are distinct; the reference tables and the meaning of the transformation matrices are those "
                  "of the element library; identifiers of vertices are numbered like the nodes; that different entities get different "
                  "identifiers is not decided.",
       min=3600)
def p08(program, res, tier):
    check_local.run(program, res, tier)


@check("P07", "every family name selects that family and no other name is accepted, every dimension 0-3 its cell type and no other "
       "number is accepted; for every family and dimension the numbering and the elements of a field use the same family (vector "
       "families become Lagrange on points and segments only), cell, degree, points and continuity; boundary elements span the traces "
       "of the family; vector families, and only they, are mapped along segments; every dimension in use has a quadrature rule on its "
       "cell, of degree 2 max(k) + 1; tables between dimensions and cell names are right and complete",
       "The selections, spaces, numbering, elements and product spaces are interpreted over value terms for every family name, dimension "
       "and continuity (orders symbolic) and for products of up to three fields; the arguments reaching the element library are "
       "compared with each other and with the family tables.",
       technique="static abstract interpretation over value terms, exhaustive in family names and dimensions",
       level_note="Order at least one, order zero for fields of points; the trace tables are those of the element library's simplex "
                  "elements; the continuity of boundary elements is decided only where degree zero requires it.",
       min=4100)
def p07(program, res, tier):
    check_family.run(program, res, tier)


@check("P18", "the cells of every exported file are of one dimension and are listed with their own nodes under the name of that dimension; "
       "row k of every cell array (tags, identifiers, colours, cell-centred values) is about cell k; point arrays have one row for each "
       "point of the mesh and row i holds the value of node i, of the field that gives the array its name, averaged over the elements "
       "around the node; values in a cell use the element, the unknowns and the geometry of that cell",
       "The export functions are interpreted over value terms on meshes that contain every kind of cell an export can meet (each dimension, "
       "with and without a tag, tags in and out of the fields'), whose cell identifiers, node numbers and element numbers all differ; what "
       "reaches the file writer is compared row by row.",
       technique="static abstract interpretation over value terms, on meshes with one cell of each kind",
       level_note="Selections look at one cell at a time (dimension, tag); fields of a product space live on the same cells; the layout "
                  "of the components inside a row is not decided.",
       min=3600)
def p18(program, res, tier):
    check_export.run(program, res, tier)


@check("P19", "the value of every field of every norm and error functional is a sum with exactly one share of each selected element of that "
       "field: exchanging any two elements leaves it unchanged, the weights do not depend on how many there are, no element of another "
       "dimension or field takes part, the sum starts at nothing, and a share reads the unknowns at the element's own (shifted) "
       "destinations and the given function of the field, and is the integral of the square the functional is named after; values are listed for the fields that are not skipped, in their order; the "
       "mesh sizes are minimum, mean and maximum over exactly the selected cells; a diameter looks at every pair of nodes",
       "The functionals are interpreted over value terms on product spaces with one to four fields of every family, two and three "
       "elements each, whose positions, identifiers and unknowns are distinct symbols; the terms under the roots are decomposed. A second "
       "analysis (the one of the weak forms) compares the square of each value with an independent statement of the functional.",
       technique="static abstract interpretation over value terms, symmetry of the accumulated term under exchange of elements",
       level_note="The selection looks at one element at a time; numpy's sums are sums over all entries; the mean trace of the "
                  "deviatoric functionals is the integral over the cells (a domain of unit measure).",
       min=300)
def p19(program, res, tier):
    check_sum.run(program, res, tier)
    check_integrals.run(program, "P19", res)


@check("P09", "a value that names a mesh cell, a mesh node, an element of a space, a boundary element, a material tag, a dimension, a "
       "position in a list or an unknown is only used where that kind of name is meant: as an index or key of a table of that kind, in a "
       "comparison with the same kind, stored in, passed to and returned from places of that kind; nodes of the incidence graphs are "
       "(dimension, cell identifier) pairs in that order",
       "A table gives the kind of the attributes of the mesh, numbering, space and element classes; kinds flow from there through every "
       "function, method call, loop, comprehension and container of the package; every indexing, look-up, comparison, store, call and return "
       "whose two sides have a known kind is compared.",
       technique="static abstract interpretation: flow- and context-sensitive inference of units (kinds of identifiers)",
       level_note="The kinds of the attributes listed in the table are the specification; values of unknown kind (results of the "
                  "mesh generator, untyped parameters without a caller) are not compared; that an identifier of the right kind is the right "
                  "one is the subject of other properties.",
       min=680)
def p09(program, res, tier):
    check_kinds.run(program, res, tier)


@check("P25", "for every cell dimension, position of the facet and direction in which its vertices are listed, on every path: the normal "
       "of a facet is a unit vector, orthogonal to the facet, in the plane of the cell, and its product with the direction from the "
       "centre of the cell to the centre of the facet is positive",
       "The normal is evaluated on symbolic coordinates; lengths are atoms with a known square, both outcomes of a comparison of signs are "
       "followed; the identities are decided as polynomial identities modulo the squares of the lengths.",
       technique="static abstract interpretation: algebraic value numbers over symbolic coordinates, path by path",
       level_note="Cells are not degenerate; real arithmetic; that the forms ask for the normal of the boundary cell in front of its own "
                  "neighbour is part of P10.",
       min=56)
def p25(program, res, tier):
    from . import check_normals
    check_normals.run(program, res, tier)


@check("P26", "in exact arithmetic: areas, volumes, centres, rotations, diameters and mesh sizes are those of their definitions for all "
       "coordinates; two lines that meet are reported exactly when the meeting point belongs to both, points of a line or plane exactly when "
       "they belong to the segment or triangle, and reported points are the common points",
       "The operations are evaluated on symbolic coordinates; the position of a point is given by symbolic parameters whose signs are "
       "enumerated, and a comparison is decided by recognising the compared polynomial as one of them up to a positive factor.",
       technique="static abstract interpretation: polynomial identities over symbolic coordinates, sign cases of position parameters",
       level_note="Real arithmetic, away from the tolerances (which P11 and P14 follow); parallel lines and the combination of triangle "
                  "pairs are not covered; linear systems are taken to be solved.",
       min=180)
def p26(program, res, tier):
    from . import check_measures
    check_measures.run(program, res, tier)



@check("P15", "after a conformity cut the identifier of every added cell is its position in the list of cells; every duplicate is stored once, "
       "is a copy of its own, is its own entry in its own dimension, and is put into the references of another cell only in the place of "
       "the cell it duplicates; the two sides of a cut get different duplicates; an added vertex has a point of its own, equal to that of "
       "the vertex it duplicates; only cells that touch the cut in the current mesh, and are not part of it, are rewritten; the returned "
       "pairs list the duplicates of one cell, the positive one first; the pair update keeps every reference that is not the first "
       "of a pair; the incidence graphs hold exactly the (cell, sub-cell) pairs of the selected cells",
       "The cuts are interpreted over value terms on a mesh with an unknown number of cells and points that satisfies the property, for "
       "two consecutive fractures (the second starts from what the first left behind, of unknown size again); the added cells and points, "
       "every store to an identifier list, a tag or node tags, and the returned pairs are compared with the property. The update with "
       "cell pairs and the graph builders are interpreted for every dimension.",
       technique="static abstract interpretation over value terms with symbolic list sizes, induction over the fractures",
       level_note="The mesh is two dimensional, as the cuts require; the cells tagged as a line are of dimension one; which of the two sides a "
                  "cell lies on is decided by the geometry, which is not checked; the construction of a mesh from a file and the older cut "
                  "(cut_conformity_on_fractures) are not analysed.",
       min=330)
def p15(program, res, tier):
    check_mesh.run(program, res, tier)
