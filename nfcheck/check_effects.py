"""P12: queries and evaluations never modify their inputs."""
import ast
import re

from .core import loc
from .effects import effects_of

# functions whose purpose is to edit what they are given: (function, positions of the arguments they may edit)
EDITORS = {
    "assembly.ScatterFormData:scatter_time_dependent_form_data": {2, 3},
    "assembly.ScatterFormData:scatter_form_data": {2, 3},
    "assembly.ScatterFormData:scatter_time_dependent_bc_form_data": {2, 3},
    "assembly.ScatterFormData:scatter_bc_form_data": {2, 3},
    "assembly.ScatterFormData:scatter_interface_form_data": {2, 3},
    "assembly.ScatterFormData:scatter_bc_interface_form_data": {2, 3},
    "assembly.ScatterFormData:__scatter_generic_form_data": {0, 1},
    "assembly.ScatterFormData:__scatter_generic_lhs_data": {0},
    "assembly.ScatterFormData:__scatter_generic_rhs_data": {0},
    "basis.permute_and_transform:_permute_and_transform_2d": {0},
    "basis.permute_and_transform:_permute_and_transform_3d": {0},
    "basis.permute_and_transform:permute_and_transform": {0},
    "geometry.fracture_network:FractureNetwork.gather_graph_edges": {2},
    "geometry.geometry_builder:GeometryBuilder.gather_graph_edges": {2},
    "geometry.mapping:store_mapping": {0},
    "mesh.mesh:Mesh.insert_cell_data": {1},
    "mesh.mesh:Mesh.gather_graph_edges": {3},
    "mesh.mesh:Mesh.duplicate_entity": {6},
    "mesh.mesh:Mesh.harvest_duplicates_from_vertex": {6},
    "mesh.mesh:Mesh.update_entity_on_dimension": {2},
    "mesh.mesh:Mesh.next_d_m_1": {5},
    "mesh.mesh:Mesh.next_d_m_1_cell": {6},
    "mesh.mesh_operations:duplicate_mesh_points_from_0d_cells": {0, 1},
    "mesh.mesh_operations:replace_node_in_grahp": {1},
    "mesh.mesh_operations:replace_nodes_in_grahp": {1},
    "mesh.mesh_operations:update_cells_with_cell_pairs": {0, 2},
    "mesh.mesh_operations:cut_conformity_along_c1_line": {2},
    "mesh.mesh_operations:cut_conformity_along_c1_lines": {2},
    "topology.domain:Domain.gather_graph_edges": {2},
    "topology.operations.domain_operations:__append_shape": {0},
    "topology.operations.edge_operations:collapse_edge": {1},
    "topology.operations.vertex_operations:collapse_vertex": {1},
}
# whole modules of editing operations: points and edges are merged, embedded and cut in place
EDIT_FUNCTIONS = re.compile(r"^topology\.shape_manipulation:(collapse|embed|intersect)_")

# methods that answer a question about their object
QUERIES = [
    (r"^weak_forms\.", r"^evaluate"),
    (r"^basis\.finite_element:", r"^(evaluate_|family)"),
    (r"^spaces\.", r"(destination|^dof_number$|^dimension$|^dof_shift$|^family$)"),
    (r"^mesh\.mesh_topology:", r"^entit(y_map_by|ies_by)_"),
    (r"^mesh\.mesh_cell:", r"^(get_|barycenter|rotate_vector|.*_rotation|sub_cell_index|node_tag_index|index$|clone|mesh_cell_type)"),
    (r"^mesh\.mesh:", r"^(mesh_cell_type_index|validate_entity|max_|create_cell|write_|conformal_mesh_write|build_graph|circulate_|draw_)"),
    (r"^topology\.shape:", r"^(tag|active|physical_tag|dimension|composite|boundary_shapes|immersed_shapes|admissible|hash|index|__(?!init))"),
    (r"^topology\.(vertex|edge|face|wire|solid|shell|composite_solid):", r"^(admissible|boundary_points|point|__eq__|shape_dimension|immersed_shapes$)"),
    (r"^topology\.domain:", r"^(max_|shapes_with|lookup|shape_index|draw_|gather_)"),
    (r"^geometry\.operations\.triangle_triangle", r"^(?!__init__)"),
    (r"^geometry\.(fracture_network|geometry_builder):", r"^(gather_|draw_|render_|pair_|unpair_)"),
    (r"^assembly\.", r"^(form_)"),
]

def known():
    from .known_functions import KNOWN
    return KNOWN


def qual(f, node, mod, cls):
    return "%s:%s%s" % (mod.name, (cls.name + ".") if cls is not None else "", getattr(node, "name", "<lambda>"))


def is_setter(node):
    return any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in getattr(node, "decorator_list", []))


def mutable_defaults(node):
    a = node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (
                isinstance(d, ast.Call) and ast.unparse(d.func) in ("list", "dict", "set", "np.array", "np.zeros", "np.empty")):
            yield x.arg


def show(root, path):
    out = root
    for st in path:
        out += "[...]" if st == "[]" else (" (inside)" if st in ("+", "...") else "." + st)
    return out


def run(program, res, tier):
    eff = effects_of(program)
    res.info["functions_analysed"] = len(eff.sum)
    names = known()
    seen = 0
    for key, s in eff.sum.items():
        f, node, mod, cls, parent = eff.info[key]
        if parent is not None:
            continue
        q = qual(f, node, mod, cls)
        pos = [x.arg for x in node.args.posonlyargs + node.args.args]
        selfn = pos[0] if cls is not None and pos and not f.is_static() else None
        # shared defaults
        shared = list(mutable_defaults(node))
        for p in shared:
            hits = [(k, w) for k, w in s.mut.items() if k[0] == p]
            if hits:
                (r, path), w = hits[0]
                res.bad("shared.default", "%s %s" % (q, p), "the default value of %s is changed by a call and keeps the "
                        "change for the next one: %s" % (p, w[2]), loc(w[0], w[1]))
            else:
                res.ok("shared.default", "%s: the default of %s is never written" % (q, p))
        # class level containers
        if cls is not None and selfn is not None:
            for (r, path), w in s.mut.items():
                if r == selfn and len(path) >= 1 and shared_attr(eff, cls, path[0]):
                    res.bad("shared.class", "%s %s" % (q, path[0]), "attribute %s lives in the class and is changed for all "
                            "instances: %s" % (path[0], w[2]), loc(w[0], w[1]))
        if q not in names or is_setter(node):
            continue
        seen += 1
        if EDIT_FUNCTIONS.match(q):
            continue
        allowed = EDITORS.get(q, set())
        for i, x in enumerate(pos + [y.arg for y in node.args.kwonlyargs] + [
                y.arg for y in (node.args.vararg, node.args.kwarg) if y is not None]):
            if x == selfn or i in allowed:
                continue
            hits = [(k, w) for k, w in s.mut.items() if k[0] == x and not (w[3])]
            if hits:
                (r, path), w = min(hits, key=lambda h: len(h[0][1]))
                res.bad("argument", "%s %s" % (q, x), "%s, which the caller passed in, is written: %s" % (show(x, path), w[2]),
                        loc(w[0], w[1]))
            else:
                res.ok("argument", "%s: %s is only read (all callees included)" % (q, x))
        if selfn is not None and any(re.match(a, q) and re.search(b, node.name) for a, b in QUERIES):
            hits = [(k, w) for k, w in s.mut.items() if k[0] == selfn and not w[3]]
            if hits:
                (r, path), w = min(hits, key=lambda h: len(h[0][1]))
                res.bad("object", q, "the query changes the object it is asked of: %s is written: %s" % (
                    show(r, path), w[2]), loc(w[0], w[1]))
            else:
                res.ok("object", "%s leaves its object unchanged" % q)
        if selfn is not None and q == "assembly.SequentialAssembler:SequentialAssembler.scatter_forms":
            hits = [(k, w) for k, w in s.mut.items() if k[0] == selfn and (
                not k[1] or k[1][0] not in ("residual", "jacobian"))]
            if hits:
                (r, path), w = hits[0]
                res.bad("object", q, "assembly writes %s: %s" % (show(r, path), w[2]), loc(w[0], w[1]))
            else:
                res.ok("object", "%s writes only the residual and the Jacobian" % q)
    res.info["named_functions_checked"] = seen


def shared_attr(eff, cls, name):
    for c in eff.p.mro(cls):
        v = c.class_attrs.get(name) if isinstance(c.class_attrs, dict) else None
        if isinstance(v, (ast.List, ast.Dict, ast.Set)):
            # an instance of its own in the constructor hides it
            for k in eff.p.mro(cls):
                init = k.methods.get("__init__")
                if init is not None and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name
                                            for n in ast.walk(init.node)):
                    return False
            return True
    return False
