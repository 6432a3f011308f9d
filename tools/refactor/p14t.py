import sys; sys.path.insert(0,'/tmp/rf'); from rf import run
P=("P14",)
VO='topology/operations/vertex_operations.py'; EO='topology/operations/edge_operations.py'; DO='topology/operations/domain_operations.py'
SH='topology/shape.py'; VX='topology/vertex.py'; DM='topology/domain_market.py'; SM='topology/shape_manipulation.py'; D='topology/domain.py'
Q=[
[(VO,"            tag = np.max([shape.tag for shape in shape_intx]) + 1\n","            tag = max(shape.tag for shape in shape_intx) + 1\n")],
[(VO,"            tag = np.max([shape.tag for shape in shape_intx]) + 1\n","            tag = shape_intx[-1].tag + 1\n")],
[(VO,"        if len(shape_intx) > 0:\n            tag = np.max([shape.tag for shape in shape_intx]) + 1\n","        tag += len(shape_intx)\n")],
[(VO,"        shape.tag = tag\n        tag += 1\n","        shape.tag, tag = tag, tag + 1\n")],
[(VO,"        shape.tag = tag\n        tag += 1\n        shape_intx","        shape.tag = tag + len(shape_intx)\n        shape_intx")],
[(VO,"    for idx, shape in enumerate(resulting_shapes):\n        if shape is None:\n            continue\n        shape = copy.copy(shape)\n","    for v_tool, shape in zip(vertices_tool, resulting_shapes):\n        if shape is None:\n            continue\n        shape = copy.copy(shape)\n"),(VO,"shapes_tool.append(vertices_tool[idx])","shapes_tool.append(v_tool)")],
[(VO,"    if strong_check[0]:\n        return edge_object.boundary_shapes[0]\n    elif strong_check[1]:\n        return edge_object.boundary_shapes[1]\n    if weak_check[0]:\n        v0: Vertex = edge_object.boundary_shapes[0]\n        vertex = Vertex(tag, v0.point)\n        return vertex\n    elif weak_check[1]:\n        v1: Vertex = edge_object.boundary_shapes[1]\n        vertex = Vertex(tag, v1.point)\n        return vertex\n    else:\n        return None","    for e_vertex, strong in zip(edge_object.boundary_shapes, strong_check):\n        if strong:\n            return e_vertex\n    for e_vertex, weak in zip(edge_object.boundary_shapes, weak_check):\n        if weak:\n            return Vertex(tag, e_vertex.point)\n    return None")],
[(VO,"    new_vertices = []\n    new_edges = []\n    for chain in chains:\n        if vertex_with_same_geometry_q(Vertex(tag, chain[0]), vertex_a, eps):","    new_vertices = []\n    new_edges = []\n    for k in range(len(chains)):\n        chain = chains[k]\n        if vertex_with_same_geometry_q(Vertex(tag, chain[0]), vertex_a, eps):")],
[(VO,"        e = Edge(tag, np.array([v0, v1]))\n        e.physical_tag = edge_object.physical_tag\n        tag += 1\n        new_vertices.append(v0)","        e = Edge(tag, np.array([v0, v1]))\n        e.physical_tag = edge_object.physical_tag\n        tag = tag + 1\n        new_vertices.append(v0)")],
[(VO,"            v1 = Vertex(tag, chain[1])\n            v1.physical_tag = edge_object.physical_tag\n            tag += 1\n","            v1, tag = _new_vertex(tag, chain[1], edge_object)\n"),(VO,"            v0 = Vertex(tag, chain[0])\n            v0.physical_tag = edge_object.physical_tag\n            tag += 1\n","            v0, tag = _new_vertex(tag, chain[0], edge_object)\n"),(VO,"def vertices_edge_difference(","def _new_vertex(tag, point, edge):\n    vertex = Vertex(tag, point)\n    vertex.physical_tag = edge.physical_tag\n    return vertex, tag + 1\n\n\ndef vertices_edge_difference(")],
[(VO,"        if len(new_vertices) != 0 and len(new_edges) != 0:\n            tag = (\n                np.max(\n                    [shape.tag for shape in new_vertices]\n                    + [shape.tag for shape in new_edges]\n                )\n                + 1\n            )\n","        if new_edges:\n            used = [shape.tag for shape in new_vertices + new_edges]\n            tag = max(used) + 1\n")],
[(VO,"        if len(new_vertices) != 0 and len(new_edges) != 0:\n            tag = (\n                np.max(\n                    [shape.tag for shape in new_vertices]\n                    + [shape.tag for shape in new_edges]\n                )\n                + 1\n            )\n","        if len(new_vertices) != 0 and len(new_edges) != 0:\n            tag = _next_tag(new_vertices, new_edges)\n"),(VO,"def vertices_edges_difference(","def _next_tag(*groups):\n    return max(shape.tag for group in groups for shape in group) + 1\n\n\ndef vertices_edges_difference(")],
[(EO,"    bc_out_tv0 = vertex_edge_boundary_intersection(tv0, e_object, tag, eps)\n    bc_out_tv1 = vertex_edge_boundary_intersection(tv1, e_object, tag, eps)\n    boundary_intersection_q = bc_out_tv0 is not None or bc_out_tv1 is not None\n\n    if boundary_intersection_q:\n        if bc_out_tv0 is not None:\n            return bc_out_tv0\n        else:\n            return bc_out_tv1\n","    for tv in (tv0, tv1):\n        bc_out = vertex_edge_boundary_intersection(tv, e_object, tag, eps)\n        if bc_out is not None:\n            return bc_out\n    boundary_intersection_q = False\n")],
[(SH,"        equality_q = (\n            equality_by_dimension_and_tag\n            and n_boundary_shapes_q\n            and n_immersed_shapes_q\n            and equality_by_boundary_shapes\n            and equality_by_immersed_shapes\n        )\n        return equality_q","        return all(\n            [\n                equality_by_dimension_and_tag,\n                n_boundary_shapes_q,\n                n_immersed_shapes_q,\n                equality_by_boundary_shapes,\n                equality_by_immersed_shapes,\n            ]\n        )")],
[(SH,"        equality_by_dimension_and_tag = (self.dimension, self.tag) == (\n            other.dimension,\n            other.tag,\n        )\n","        equality_by_dimension_and_tag = (\n            self.dimension == other.dimension and self.tag == other.tag\n        )\n        if not equality_by_dimension_and_tag:\n            return False\n")],
[(SH,"        equality_by_boundary_shapes = True\n        if self.boundary_shapes.size != 0 and n_boundary_shapes_q:\n            equality_by_boundary_shapes = np.all(\n                np.array(\n                    [\n                        shape == other_shape\n                        for shape, other_shape in zip(\n                            self.boundary_shapes, other.boundary_shapes\n                        )\n                    ]\n                )\n            )\n","        equality_by_boundary_shapes = all(\n            shape == other_shape\n            for shape, other_shape in zip(self.boundary_shapes, other.boundary_shapes)\n        )\n")],
[(VX,"        identity_check = (self.dimension, self.tag) == (other.dimension, other.tag)\n        geometry_check = np.all(np.isclose(self.point, other.point))\n        return identity_check and geometry_check","        if self.dimension != other.dimension or self.tag != other.tag:\n            return False\n        return np.allclose(self.point, other.point)")],
[(SH,"        return not self.__eq__(other)","        return not (self == other)")],
[(DO,"        shapes_by_co_dimension[co_dimension][(shape.dimension, shape.tag)] = (\n            shape\n        )\n\n    # append","        key = (shape.dimension, shape.tag)\n        shapes_by_co_dimension[co_dimension][key] = shape\n\n    # append")],
[(DM,"    vertices = np.array([Vertex(tag, point) for tag, point in enumerate(box_points)])\n    domain.append_shapes(vertices)\n\n    loop","    vertices = []\n    for point in box_points:\n        vertices.append(Vertex(len(vertices), point))\n    domain.append_shapes(np.array(vertices))\n\n    loop")],
[(DM,"    for tag, edge_con in enumerate(edges_connectivities):\n        edge = Edge(tag, domain.shapes[0][edge_con])\n        edge.physical_tag = physical_tags.get(bc_name + str(bc_id), None)\n        bc_id += 1\n        domain.shapes[1] = np.append(domain.shapes[1], edge)\n        edges_list.append(edge)\n\n    vertices = np.array([domain.shapes[0][loop[0]], domain.shapes[0][loop[-1]]])\n    tag += 1\n","    tag = 0\n    for edge_con in edges_connectivities:\n        edge = Edge(tag, domain.shapes[0][edge_con])\n        edge.physical_tag = physical_tags.get(bc_name + str(bc_id), None)\n        bc_id += 1\n        tag += 1\n        domain.shapes[1] = np.append(domain.shapes[1], edge)\n        edges_list.append(edge)\n\n    vertices = np.array([domain.shapes[0][loop[0]], domain.shapes[0][loop[-1]]])\n")],
[(DM,"        v0 = Vertex(v_tag, line[0])\n        v_tag += 1\n        v1 = Vertex(v_tag, line[1])\n        v_tag += 1\n        e = Edge","        v0 = Vertex(v_tag, line[0])\n        v1 = Vertex(v_tag + 1, line[1])\n        v_tag += 2\n        e = Edge")],
[(DM,"    v_tag = max_v_tag\n    e_tag = max_e_tag\n    for line, physical_tag in zip(lines, physical_tags):\n        v0 = Vertex(v_tag, line[0])\n        v_tag += 1\n        v1 = Vertex(v_tag, line[1])\n        v_tag += 1\n        e = Edge(e_tag, np.array([v0, v1]))\n        e.physical_tag = physical_tag\n        e_tag += 1\n","    for k, (line, physical_tag) in enumerate(zip(lines, physical_tags)):\n        v0 = Vertex(max_v_tag + 2 * k, line[0])\n        v1 = Vertex(max_v_tag + 2 * k + 1, line[1])\n        e = Edge(max_e_tag + k, np.array([v0, v1]))\n        e.physical_tag = physical_tag\n")],
[(SM,"        for i in range(len(vertex_list) - 1):\n            e = Edge(i + tag_shift, np.array([vertex_list[i], vertex_list[i + 1]]))\n","        for i, (start, end) in enumerate(zip(vertex_list[:-1], vertex_list[1:])):\n            e = Edge(tag_shift + i, np.array([start, end]))\n")],
[(SM,"        for point in unique_points:\n            v = Vertex(v_tag, point)\n            v.physical_tag = physical_tag\n            v_tag += 1\n","        for k, point in enumerate(unique_points):\n            v = Vertex(v_tag + k, point)\n            v.physical_tag = physical_tag\n")],
[(DM,"    max_f_tag = np.max([shape.tag for shape in domain.shapes[2]]) + 1\n    max_p_tag = domain.max_physical_tag()\n    solid","    max_f_tag = max([shape.tag for shape in domain.shapes[2]]) + 1\n    max_p_tag = domain.max_physical_tag()\n    solid")],
]
M=[
[(SH,"            and n_immersed_shapes_q\n","")],
[(SH,"            and equality_by_boundary_shapes\n","")],
[(SH,"            and equality_by_immersed_shapes\n","")],
[(SH,"        equality_by_dimension_and_tag = (self.dimension, self.tag) == (\n            other.dimension,\n            other.tag,\n        )","        equality_by_dimension_and_tag = self.tag == other.tag")],
[(VX,"        return identity_check and geometry_check","        return geometry_check")],
[(VX,"        return identity_check and geometry_check","        return identity_check or geometry_check")],
[(SH,"        return not self.__eq__(other)","        return self.__eq__(other)")],
[(DO,"        shapes_by_co_dimension[co_dimension][(shape.dimension, shape.tag)] = (\n            shape\n        )\n\n    # append","        shapes_by_co_dimension[co_dimension][hash(shape)] = shape\n\n    # append")],
[(VO,"        shape.tag = tag\n        tag += 1\n","        shape.tag = tag\n")],
[(VO,"            tag = np.max([shape.tag for shape in shape_intx]) + 1\n","            tag = np.max([shape.tag for shape in shape_intx])\n")],
[(VO,"        if len(shape_intx) > 0:\n            tag = np.max([shape.tag for shape in shape_intx]) + 1\n","")],
[(VO,"            tag = np.max([shape.tag for shape in shape_intx]) + 1\n","            tag = len(shape_intx)\n")],
[(VO,"            v0.physical_tag = edge_object.physical_tag\n            tag += 1\n","            v0.physical_tag = edge_object.physical_tag\n")],
[(VO,"                np.max(\n                    [shape.tag for shape in new_vertices]\n                    + [shape.tag for shape in new_edges]\n                )\n","                np.max([shape.tag for shape in new_vertices])\n")],
[(VO,"        new_edges, new_vertices = vertices_edge_difference(\n            vertices_tool, edge, tag, eps\n        )\n","        new_edges, new_vertices = vertices_edge_difference(\n            vertices_tool, edge, eps=eps\n        )\n")],
[(VO,"    bc_out = vertex_edge_boundary_intersection(v_tool, edge_object, tag, eps)\n","    bc_out = vertex_edge_boundary_intersection(v_tool, edge_object, eps=eps)\n")],
[(EO,"    out_tv0 = vertex_edge_intersection(tv0, e_object, tag, eps)\n","    out_tv0 = vertex_edge_intersection(tv0, e_object, eps=eps)\n")],
[(DM,"    tag += 1\n    wire = Wire(tag, np.array(edges_list), vertices)\n","    wire = Wire(tag, np.array(edges_list), vertices)\n")],
[(DM,"        v1 = Vertex(v_tag, line[1])\n        v_tag += 1\n        e = Edge","        v1 = Vertex(v_tag, line[1])\n        e = Edge")],
[(DM,"        e3 = Edge(e_tag, np.array([v3, v0]))\n        e_tag += 1\n","        e3 = Edge(e_tag, np.array([v3, v0]))\n")],
[(DM,"    domain.append_shapes(domain_lines.shapes[0])\n    domain.append_shapes(domain_lines.shapes[1])\n\n    max_v_tag = len(domain.shapes[0])\n    max_e_tag = len(domain.shapes[1])\n","    max_v_tag = len(domain.shapes[0])\n    max_e_tag = len(domain.shapes[1])\n    domain.append_shapes(domain_lines.shapes[0])\n    domain.append_shapes(domain_lines.shapes[1])\n\n")],
[(SM,"                e_tag = max(e_tag, np.max(new_e_tags) + 1)\n                edges = np.append(edges, edge_i","                e_tag = max(e_tag, np.max(new_e_tags))\n                edges = np.append(edges, edge_i")],
[(SM,"            v1 = Vertex(v_tag, point_pair[1])\n            vertices = np.append(vertices, np.array([v1]), axis=0)\n            v_tag += 1\n","            v1 = Vertex(v_tag, point_pair[1])\n            vertices = np.append(vertices, np.array([v1]), axis=0)\n")],
[(SM,"                v_tag = np.max(new_v_tags) + 1\n","                v_tag = np.max(new_v_tags)\n")],
[(SM,"                v_tag_shift=v_tag,\n                e_tag_shift=e_tag,\n","                v_tag_shift=v_tag_shift,\n                e_tag_shift=e_tag,\n")],
[(D,"            shape.tag = tag\n            tag += 1\n            if len","            shape.tag = i\n            tag += 1\n            if len")],
]
if __name__=="__main__":
    w=sys.argv[1:] or ["Q","M"]
    for n,S in (("Q",Q),("M",M)):
        if n not in w: continue
        for i,e in enumerate(S):
            print(n,i,*(run(e,P) or []),sep="\n  ",flush=True)
