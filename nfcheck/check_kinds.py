"""P09: identifiers of different kinds are never interchanged."""
import os

from .core import AnchorMissing
from .kinds import Kinds, k, seq, tup, dct, NUM, NONE, TOP, join

RULES = ("index kind", "comparison", "stored kind", "argument kind", "returned kind", "graph node")


def tables(p):
    def o(name):
        return frozenset([("obj", p.find_class(name))])
    cell, node, elpos, bcpos, tag, dof, dim = (k(x) for x in ("cell", "node", "elpos", "bcpos", "tag", "dof", "dim"))
    pair = tup(dim, cell)
    graph = frozenset([("graph", pair)])
    elem = o("FiniteElement")
    dofs = seq(dof, "loc")
    tags = seq(join(tag, NONE))
    cut = dct(cell, tup(cell, cell))
    schema = {
        ("MeshCell", "id"): join(cell, NONE),
        ("MeshCell", "dimension"): dim,
        ("MeshCell", "material_id"): join(tag, NONE),
        ("MeshCell", "node_tags"): seq(node, "loc"),
        ("MeshCell", "sub_cells_ids"): seq(seq(cell, "loc"), "dim"),
        ("MeshCell", "perm"): seq(k("loc"), "loc"),
        ("Mesh", "cells"): seq(o("MeshCell"), "cell"),
        ("Mesh", "points"): seq(TOP, "node"),
        ("Mesh", "dimension"): dim,
        ("Mesh", "entities_0d"): dct(node, cell),
        ("Mesh", "entities_1d"): dct(TOP, cell),
        ("Mesh", "entities_2d"): dct(TOP, cell),
        ("Mesh", "entities_3d"): dct(TOP, cell),
        ("Mesh", "fracture_normals"): dct(tag, TOP),
        ("Mesh", "embed_shape_normals"): dct(tag, TOP),
        ("MeshTopology", "mesh"): o("Mesh"),
        ("MeshTopology", "dimension"): dim,
        ("MeshTopology", "entity_maps"): seq(graph, "dim"),
        ("MeshTopology", "entity_ids"): dct(dim, seq(cell)),
        ("DoFMap", "mesh_topology"): o("MeshTopology"),
        ("DoFMap", "dimension"): dim,
        ("DoFMap", "vertex_map"): dct(cell, seq(dof)),
        ("DoFMap", "edge_map"): dct(cell, seq(dof)),
        ("DoFMap", "face_map"): dct(cell, seq(dof)),
        ("DoFMap", "volume_map"): dct(cell, seq(dof)),
        ("DiscreteSpace", "mesh_topology"): o("MeshTopology"),
        ("DiscreteSpace", "dof_map"): o("DoFMap"),
        ("DiscreteSpace", "dimension"): dim,
        ("DiscreteSpace", "elements"): seq(elem, "elpos"),
        ("DiscreteSpace", "element_ids"): seq(cell, "elpos"),
        ("DiscreteSpace", "id_to_element"): dct(cell, elpos),
        ("DiscreteSpace", "bc_elements"): seq(elem, "bcpos"),
        ("DiscreteSpace", "bc_element_ids"): seq(cell, "bcpos"),
        ("DiscreteSpace", "id_to_bc_element"): dct(cell, bcpos),
        ("ProductSpace", "discrete_spaces"): dct(NUM, o("DiscreteSpace")),
        ("MDProductSpace", "discrete_spaces"): dct(NUM, o("DiscreteSpace")),
        ("ProductSpace", "quadrature"): seq(TOP, "dim"),
        ("ProductSpace", "bc_quadrature"): seq(TOP, "dim"),
        ("DoFData", "entity_dofs"): seq(seq(TOP, "loc"), "dim"),
        ("DoFData", "num_entity_dofs"): seq(seq(NUM, "loc"), "dim"),
        ("FiniteElement", "data"): o("ElementData"),
        ("FiniteElement", "mesh"): o("Mesh"),
        ("ElementData", "cell"): o("MeshCell"),
        ("ElementData", "mesh"): o("Mesh"),
    }
    graphs = ("build_graph", "build_graph_on_physical_tags", "build_graph_from_cell_ids", "build_graph_on_materials")
    params = {("DoFMap", "destination_indices"): {0: cell}, ("DoFMap", "bc_destination_indices"): {0: cell, 1: cell},
              ("FiniteElement", "__init__"): {0: cell},
              ("Mesh", "update_entity_with_dimension"): {1: cell}, ("Mesh", "update_nodes_ids"): {0: cell},
              ("MeshCell", "sub_cell_index"): {0: dim, 1: cell}, ("MeshCell", "node_tag_index"): {0: node},
              ("MeshCell", "set_sub_cells_ids"): {0: dim, 1: seq(cell, "loc")}, ("MeshCell", "set_node_tags"): {0: seq(node, "loc")},
              ("MeshCell", "set_id"): {0: cell}, ("MeshCell", "set_material_id"): {0: join(tag, NONE)},
              ("Mesh", "insert_vertex"): {0: node, 1: join(tag, NONE)}, ("Mesh", "insert_edge"): {0: seq(node, "loc"), 1: join(tag, NONE)},
              ("Mesh", "create_cell"): {0: dim, 1: seq(node, "loc"), 2: cell, 3: join(tag, NONE)},
              ("Mesh", "build_graph_from_cell_ids"): {0: seq(cell)},
              ("Mesh", "insert_polygon"): {0: seq(node, "loc"), 1: join(tag, NONE)},
              ("Mesh", "insert_polyhedron"): {0: seq(node, "loc"), 1: join(tag, NONE)},
              ("Mesh", "build_graph_on_physical_tags"): {0: tags, 1: dim}, ("Mesh", "build_graph"): {0: dim},
              ("Mesh", "build_graph_on_materials"): {0: dim},
              ("Mesh", "apply_visual_opening"): {0: cut},
              ("MeshTopology", "build_data_on_pysical_tags"): {0: tags}, ("MeshTopology", "__init__"): {0: o("Mesh"), 1: dim},
              ("MeshTopology", "entity_map_by_dimension"): {0: dim}, ("MeshTopology", "entities_by_dimension"): {0: dim},
              ("DiscreteSpace", "build_structures"): {0: tags}, ("DiscreteSpace", "build_boundary_structures"): {0: tags},
              (None, "trace_discrete_space"): {}}
    for c in ("ProductSpace", "MDProductSpace"):
        for f, kd in (("discrete_spaces_destination_indexes", elpos), ("destination_indexes", elpos),
                      ("discrete_spaces_bc_destination_indexes", bcpos), ("bc_destination_indexes", bcpos)):
            params[(c, f)] = {0: kd}
        params[(c, "_retrieve_space_destination_indexes")] = {1: elpos}
        params[(c, "_retrieve_space_bc_destination_indexes")] = {1: bcpos}
    returns = {("Mesh", g): graph for g in graphs}
    returns.update({
        ("Mesh", "cut_conformity_on_embed_shapes"): cut, ("Mesh", "cut_conformity_on_fractures_mds_ec"): cut,
        (None, "find_higher_dimension_neighs"): seq(pair), (None, "find_lower_dimension_neighs"): seq(pair),
        (None, "sub_entity_by_co_dimension"): seq(cell, "loc"),
        ("MeshTopology", "entities_by_dimension"): seq(cell), ("MeshTopology", "entities_by_codimension"): seq(cell),
        ("MeshTopology", "entity_map_by_dimension"): graph, ("MeshTopology", "entity_map_by_codimension"): graph,
        ("MeshCell", "index"): pair, ("MeshCell", "get_id"): join(cell, NONE), ("MeshCell", "get_material_id"): join(tag, NONE),
        ("MeshCell", "get_node_tags"): seq(node, "loc"), ("MeshCell", "sub_cell_index"): join(k("loc"), NONE),
        ("MeshCell", "node_tag_index"): join(k("loc"), NONE), ("MeshCell", "clone"): o("MeshCell"),
        ("Mesh", "create_cell"): o("MeshCell"),
        ("Mesh", "insert_vertex"): cell, ("Mesh", "insert_edge"): cell, ("Mesh", "insert_polygon"): cell,
        ("Mesh", "insert_polyhedron"): cell,
        ("DoFMap", "destination_indices"): seq(dof), ("DoFMap", "bc_destination_indices"): seq(dof),
        (None, "coloring_mesh_by_co_dimension"): tup(dct(cell, NUM), dct(NUM, seq(cell))),
    })
    return schema, params, returns


def run(program, res, tier):
    schema, params, returns = tables(program)
    for (c, f) in list(params) + list(returns):
        if c is None:
            if not any(f in m.functions for m in program.modules.values()):
                params.pop((c, f), None)
                returns.pop((c, f), None)
    m = Kinds(program, schema, params, returns)
    m.run()
    for (rule, nid), (r, where, what) in sorted(m.sites.items(), key=lambda z: (z[1][1], z[1][0], z[1][2])):
        res.ok(rule, "%s:%d %s" % (os.path.basename(where[0]), where[1], what[:110]))
    for (rule, fid, text), (where, what, chain) in sorted(m.found.items()):
        via = [c for c in chain if isinstance(c, str)]
        extra = "" if not via or via[0] == fid else " (reached from %s)" % via[0]
        res.bad(rule, "%s: %s" % (fid, text), what + extra, "%s:%d" % where)
    res.info["calls followed"] = m.calls
    return m
