"""Public and private functions of the library the argument and object rules are stated for; functions that are not
listed (helpers split off later) are followed through their callers."""
KNOWN = set("""
assembly.ScatterFormData:__scatter_generic_form_data
assembly.ScatterFormData:__scatter_generic_lhs_data
assembly.ScatterFormData:__scatter_generic_rhs_data
assembly.ScatterFormData:scatter_bc_form_data
assembly.ScatterFormData:scatter_bc_interface_form_data
assembly.ScatterFormData:scatter_form_data
assembly.ScatterFormData:scatter_interface_form_data
assembly.ScatterFormData:scatter_time_dependent_bc_form_data
assembly.ScatterFormData:scatter_time_dependent_form_data
assembly.SequentialAssembler:SequentialAssembler.__init__
assembly.SequentialAssembler:SequentialAssembler.__scatter_form
assembly.SequentialAssembler:SequentialAssembler.__time_dependent_scatter_form
assembly.SequentialAssembler:SequentialAssembler.form_to_input_list
assembly.SequentialAssembler:SequentialAssembler.form_type_to_callable_map
assembly.SequentialAssembler:SequentialAssembler.scatter_forms
basis.basis_trace:_trace
basis.basis_trace:trace_discrete_space
basis.basis_trace:trace_product_space
basis.element_data:BCEntities.__init__
basis.element_data:BCEntities.copy
basis.element_data:BasisData.__init__
basis.element_data:BasisData.copy
basis.element_data:DoFData.__init__
basis.element_data:DoFData.copy
basis.element_data:ElementData.__init__
basis.element_data:ElementData.copy
basis.element_data:MappingData.__init__
basis.element_data:MappingData.copy
basis.element_data:QuadratureData.__init__
basis.element_data:QuadratureData.copy
basis.element_family:basis_variant
basis.element_family:family_by_name
basis.element_type:type_by_dimension
basis.finite_element:FiniteElement.__init__
basis.finite_element:FiniteElement._build_structures
basis.finite_element:FiniteElement._fill_element_bc_entity_data
basis.finite_element:FiniteElement._fill_element_dof_data
basis.finite_element:FiniteElement._fill_element_quadratue
basis.finite_element:FiniteElement._set_integration_order
basis.finite_element:FiniteElement.evaluate_basis
basis.finite_element:FiniteElement.evaluate_mapping
basis.finite_element:FiniteElement.family
basis.finite_element:FiniteElement.storage_basis
basis.parametric_transformation:_R0_to_R1
basis.parametric_transformation:_R1_to_R2
basis.parametric_transformation:_R2_to_R3
basis.parametric_transformation:transform_lower_to_higher
basis.permute_and_transform:_permute_and_transform_2d
basis.permute_and_transform:_permute_and_transform_3d
basis.permute_and_transform:_validate_edge_orientation_2d
basis.permute_and_transform:_validate_edge_orientation_3d
basis.permute_and_transform:_validate_face_orientation_3d
basis.permute_and_transform:permute_and_transform
geometry.compute_normal:normal
geometry.fracture_network:FractureNetwork.__init__
geometry.fracture_network:FractureNetwork.build_grahp
geometry.fracture_network:FractureNetwork.draw_grahp
geometry.fracture_network:FractureNetwork.gather_graph_edges
geometry.fracture_network:FractureNetwork.insert_fracture_cell
geometry.fracture_network:FractureNetwork.insert_vertex_cell
geometry.fracture_network:FractureNetwork.intersect_1D_fractures
geometry.fracture_network:FractureNetwork.intersect_2D_fractures
geometry.fracture_network:FractureNetwork.pair_intergers
geometry.fracture_network:FractureNetwork.render_fractures
geometry.fracture_network:FractureNetwork.shift_cell_ids
geometry.fracture_network:FractureNetwork.shift_point_ids
geometry.fracture_network:FractureNetwork.unpair_intergers
geometry.geometry_builder:GeometryBuilder.__init__
geometry.geometry_builder:GeometryBuilder.build_box
geometry.geometry_builder:GeometryBuilder.build_box_1D
geometry.geometry_builder:GeometryBuilder.build_box_2D
geometry.geometry_builder:GeometryBuilder.build_grahp
geometry.geometry_builder:GeometryBuilder.build_internal_bc
geometry.geometry_builder:GeometryBuilder.draw_grahp
geometry.geometry_builder:GeometryBuilder.gather_graph_edges
geometry.geometry_builder:GeometryBuilder.set_boundary
geometry.geometry_builder:GeometryBuilder.set_physical_tags
geometry.geometry_cell:GeometryCell.__init__
geometry.geometry_cell:geo_cell_type
geometry.mapping:_compute_det_and_pseudo_inverse
geometry.mapping:evaluate_linear_shapes
geometry.mapping:evaluate_mapping
geometry.mapping:store_mapping
geometry.operations.line_geometry_operations:__line_triangles_intersection
geometry.operations.line_geometry_operations:coplanar_measurements
geometry.operations.line_geometry_operations:line_line_intersection
geometry.operations.line_geometry_operations:line_line_plot
geometry.operations.line_geometry_operations:line_polygon_intersection
geometry.operations.line_geometry_operations:line_triangle_incidence
geometry.operations.line_geometry_operations:line_triangle_intersection
geometry.operations.line_geometry_operations:lines_line_intersection
geometry.operations.line_geometry_operations:lines_lines_intersection
geometry.operations.line_geometry_operations:lines_polygon_intersection
geometry.operations.line_geometry_operations:lines_triangle_intersection
geometry.operations.point_geometry_operations:__point_triangles_intersection
geometry.operations.point_geometry_operations:colinear_measurement
geometry.operations.point_geometry_operations:coplanar_measurement
geometry.operations.point_geometry_operations:point_line_incidence
geometry.operations.point_geometry_operations:point_line_intersection
geometry.operations.point_geometry_operations:point_polygon_intersection
geometry.operations.point_geometry_operations:point_triangle_incidence
geometry.operations.point_geometry_operations:point_triangle_intersection
geometry.operations.point_geometry_operations:points_line_argsort
geometry.operations.point_geometry_operations:points_line_intersection
geometry.operations.point_geometry_operations:points_polygon_intersection
geometry.operations.point_geometry_operations:points_triangle_intersection
geometry.operations.polygon_geometry_operations:__edge_direction
geometry.operations.polygon_geometry_operations:__normalize
geometry.operations.polygon_geometry_operations:__projection_directions
geometry.operations.polygon_geometry_operations:convex_q
geometry.operations.polygon_geometry_operations:polygon_normal
geometry.operations.polygon_geometry_operations:triangulate_convex_polygon
geometry.operations.polygon_geometry_operations:triangulate_polygon
geometry.operations.polygon_geometry_operations:winding_number
geometry.operations.polygon_polygon_intersection_test:PolygonPolygonIntersectionTest.__init__
geometry.operations.polygon_polygon_intersection_test:PolygonPolygonIntersectionTest.polygon_polygon_intersection
geometry.operations.polygon_polygon_intersection_test:PolygonPolygonIntersectionTest.reduce_poly_line
geometry.operations.polygon_polygon_intersection_test:PolygonPolygonIntersectionTest.render_polygons
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.__init__
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.colinear_measurement
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.coplanar_measurement
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.intersect_with_coplanar_point_and_segment
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.intersect_with_coplanar_segment
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.line_line_intersection
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.line_plane_intersection
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.point_in_triangle
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.render_lines
geometry.operations.triangle_triangle_intersection_test:TriangleTriangleIntersectionTest.triangle_triangle_intersection
mesh.conformal_mesher:ConformalMesher.__init__
mesh.conformal_mesher:ConformalMesher.add_domain_1d_descritpion
mesh.conformal_mesher:ConformalMesher.add_domain_2d_descritpion
mesh.conformal_mesher:ConformalMesher.add_domain_3d_descritpion
mesh.conformal_mesher:ConformalMesher.add_domain_descritpion
mesh.conformal_mesher:ConformalMesher.add_fracture_network_description
mesh.conformal_mesher:ConformalMesher.generate
mesh.conformal_mesher:ConformalMesher.generate_from_domain
mesh.conformal_mesher:ConformalMesher.set_fracture_network
mesh.conformal_mesher:ConformalMesher.set_geometry_builder
mesh.conformal_mesher:ConformalMesher.set_points
mesh.conformal_mesher:ConformalMesher.transfer_domain_descritpion
mesh.conformal_mesher:ConformalMesher.transfer_domain_occ_descritpion
mesh.conformal_mesher:ConformalMesher.write_mesh
mesh.discrete_domain:DiscreteDomain.__compute_entities_strides
mesh.discrete_domain:DiscreteDomain.__embed_curves_in_surfaces
mesh.discrete_domain:DiscreteDomain.__embed_vertices_in_curves
mesh.discrete_domain:DiscreteDomain.__init__
mesh.discrete_domain:DiscreteDomain.__physical_group_curves
mesh.discrete_domain:DiscreteDomain.__physical_group_surfaces
mesh.discrete_domain:DiscreteDomain.__physical_group_vertices
mesh.discrete_domain:DiscreteDomain.__transfer_curves
mesh.discrete_domain:DiscreteDomain.__transfer_surfaces
mesh.discrete_domain:DiscreteDomain.__transfer_vertices
mesh.discrete_domain:DiscreteDomain.convert_domain_to_occ_description
mesh.discrete_domain:DiscreteDomain.generate_mesh
mesh.discrete_domain:DiscreteDomain.stride_tag
mesh.discrete_domain:DiscreteDomain.write_mesh
mesh.mesh:Mesh.__init__
mesh.mesh:Mesh.append_cells
mesh.mesh:Mesh.append_points
mesh.mesh:Mesh.apply_visual_opening
mesh.mesh:Mesh.build_conformal_mesh
mesh.mesh:Mesh.build_graph
mesh.mesh:Mesh.build_graph_from_cell_ids
mesh.mesh:Mesh.build_graph_on_materials
mesh.mesh:Mesh.build_graph_on_physical_tags
mesh.mesh:Mesh.circulate_internal_bc
mesh.mesh:Mesh.circulate_internal_bc_from_domain
mesh.mesh:Mesh.clean_up_entity_maps
mesh.mesh:Mesh.compute_fracture_normals
mesh.mesh:Mesh.compute_normals_on_embed_shapes
mesh.mesh:Mesh.conformal_mesh_write_vtk
mesh.mesh:Mesh.create_cell
mesh.mesh:Mesh.cut_conformity_on_embed_shapes
mesh.mesh:Mesh.cut_conformity_on_fractures
mesh.mesh:Mesh.cut_conformity_on_fractures_mds_ec
mesh.mesh:Mesh.draw_graph
mesh.mesh:Mesh.duplicate_entity
mesh.mesh:Mesh.duplicate_vertice
mesh.mesh:Mesh.gather_graph_edges
mesh.mesh:Mesh.harvest_duplicates_from_vertex
mesh.mesh:Mesh.insert_cell_data
mesh.mesh:Mesh.insert_edge
mesh.mesh:Mesh.insert_polygon
mesh.mesh:Mesh.insert_polyhedron
mesh.mesh:Mesh.insert_simplex_cell_from_block
mesh.mesh:Mesh.insert_vertex
mesh.mesh:Mesh.max_cell_id
mesh.mesh:Mesh.max_node_tag
mesh.mesh:Mesh.mesh_cell_type_index
mesh.mesh:Mesh.next_d_m_1
mesh.mesh:Mesh.next_d_m_1_cell
mesh.mesh:Mesh.set_conformal_mesher
mesh.mesh:Mesh.update_entity_on_dimension
mesh.mesh:Mesh.update_entity_with_dimension
mesh.mesh:Mesh.update_nodes_ids
mesh.mesh:Mesh.validate_entity
mesh.mesh:Mesh.write_data
mesh.mesh:Mesh.write_vtk
mesh.mesh_cell:MeshCell.__init__
mesh.mesh_cell:MeshCell.clone
mesh.mesh_cell:MeshCell.get_id
mesh.mesh_cell:MeshCell.get_material_id
mesh.mesh_cell:MeshCell.get_node_tags
mesh.mesh_cell:MeshCell.get_physical_name
mesh.mesh_cell:MeshCell.index
mesh.mesh_cell:MeshCell.mesh_cell_type
mesh.mesh_cell:MeshCell.node_tag_index
mesh.mesh_cell:MeshCell.set_id
mesh.mesh_cell:MeshCell.set_material_id
mesh.mesh_cell:MeshCell.set_node_tags
mesh.mesh_cell:MeshCell.set_physical_name
mesh.mesh_cell:MeshCell.set_sub_cells_ids
mesh.mesh_cell:MeshCell.sub_cell_index
mesh.mesh_cell:barycenter
mesh.mesh_cell:rotate_vector
mesh.mesh_cell:x_rotation
mesh.mesh_cell:y_rotation
mesh.mesh_cell:z_rotation
mesh.mesh_coloring:coloring_mesh_by_co_dimension
mesh.mesh_metrics:cell_centroid
mesh.mesh_metrics:cell_diam
mesh.mesh_metrics:mesh_size
mesh.mesh_operations:__duplicate_cells
mesh.mesh_operations:cut_conformity_along_c1_line
mesh.mesh_operations:cut_conformity_along_c1_lines
mesh.mesh_operations:duplicate_mesh_points_from_0d_cells
mesh.mesh_operations:replace_node_in_grahp
mesh.mesh_operations:replace_nodes_in_grahp
mesh.mesh_operations:update_cells_with_cell_pairs
mesh.mesh_topology:MeshTopology.__init__
mesh.mesh_topology:MeshTopology._build_entity_ids
mesh.mesh_topology:MeshTopology._build_entity_maps
mesh.mesh_topology:MeshTopology._build_entity_maps_on_physical_tags
mesh.mesh_topology:MeshTopology.build_data
mesh.mesh_topology:MeshTopology.build_data_on_pysical_tags
mesh.mesh_topology:MeshTopology.entities_by_codimension
mesh.mesh_topology:MeshTopology.entities_by_dimension
mesh.mesh_topology:MeshTopology.entity_map_by_codimension
mesh.mesh_topology:MeshTopology.entity_map_by_dimension
mesh.topological_queries:find_higher_dimension_neighs
mesh.topological_queries:find_lower_dimension_neighs
mesh.topological_queries:sub_entity_by_co_dimension
postprocess.l2_error_post_processor:devia_l2_error
postprocess.l2_error_post_processor:div_error
postprocess.l2_error_post_processor:div_scaled_error
postprocess.l2_error_post_processor:grad_error
postprocess.l2_error_post_processor:l2_error
postprocess.l2_error_post_processor:l2_error_projected
postprocess.projectors:l2_projector
postprocess.solution_norms_post_processor:devia_l2_norm
postprocess.solution_norms_post_processor:div_norm
postprocess.solution_norms_post_processor:l2_norm
postprocess.solution_post_processor:cell_centered_quatity
postprocess.solution_post_processor:node_average_quatity
postprocess.solution_post_processor:write_fe_spaces_on_vtk_file_with_exact_solution
postprocess.solution_post_processor:write_vtk_file
postprocess.solution_post_processor:write_vtk_file_exact_solution
postprocess.solution_post_processor:write_vtk_file_pointwise_l2_error
postprocess.solution_post_processor:write_vtk_file_with_exact_solution
spaces.discrete_space:DiscreteSpace.__init__
spaces.discrete_space:DiscreteSpace._build_bc_elements
spaces.discrete_space:DiscreteSpace._build_dof_map
spaces.discrete_space:DiscreteSpace._build_elements
spaces.discrete_space:DiscreteSpace.build_boundary_structures
spaces.discrete_space:DiscreteSpace.build_structures
spaces.discrete_space:DiscreteSpace.family
spaces.discrete_space:DiscreteSpace.make_discontinuous
spaces.discrete_space:DiscreteSpace.set_name
spaces.dof_map:DoFMap.__init__
spaces.dof_map:DoFMap.bc_destination_indices
spaces.dof_map:DoFMap.build_entity_maps
spaces.dof_map:DoFMap.destination_indices
spaces.dof_map:DoFMap.dof_number
spaces.dof_map:DoFMap.set_topological_dimension
spaces.md_product_space:MDProductSpace.__init__
spaces.md_product_space:MDProductSpace._define_discrete_spaces
spaces.md_product_space:MDProductSpace._define_discrete_spaces_dof
spaces.md_product_space:MDProductSpace._define_integration_order_and_quadrature
spaces.md_product_space:MDProductSpace._define_n_dof
spaces.md_product_space:MDProductSpace._define_product_spaces_by_dimension
spaces.md_product_space:MDProductSpace._retrieve_space_bc_destination_indexes
spaces.md_product_space:MDProductSpace._retrieve_space_destination_indexes
spaces.md_product_space:MDProductSpace.bc_destination_indexes
spaces.md_product_space:MDProductSpace.destination_indexes
spaces.md_product_space:MDProductSpace.discrete_spaces_bc_destination_indexes
spaces.md_product_space:MDProductSpace.discrete_spaces_destination_indexes
spaces.product_space:ProductSpace.__init__
spaces.product_space:ProductSpace._define_discrete_spaces
spaces.product_space:ProductSpace._define_discrete_spaces_dof
spaces.product_space:ProductSpace._define_dof_shift
spaces.product_space:ProductSpace._define_fields_names
spaces.product_space:ProductSpace._define_fields_physical_tags
spaces.product_space:ProductSpace._define_integration_order_and_quadrature
spaces.product_space:ProductSpace._define_n_dof
spaces.product_space:ProductSpace._retrieve_space_bc_destination_indexes
spaces.product_space:ProductSpace._retrieve_space_destination_indexes
spaces.product_space:ProductSpace.bc_destination_indexes
spaces.product_space:ProductSpace.build_structures
spaces.product_space:ProductSpace.destination_indexes
spaces.product_space:ProductSpace.dimension
spaces.product_space:ProductSpace.discrete_spaces_bc_destination_indexes
spaces.product_space:ProductSpace.discrete_spaces_destination_indexes
spaces.product_space:ProductSpace.dof_shift
spaces.product_space:ProductSpace.make_subspaces_discontinuous
topology.composite_solid:CompositeSolid.__init__
topology.composite_solid:CompositeSolid.admissible_dimensions
topology.domain:Domain.__init__
topology.domain:Domain.append_shapes
topology.domain:Domain.build_grahp
topology.domain:Domain.draw_grahp
topology.domain:Domain.gather_graph_edges
topology.domain:Domain.lookup_vertex
topology.domain:Domain.max_physical_tag
topology.domain:Domain.max_tag
topology.domain:Domain.refresh_wires
topology.domain:Domain.remove_vertex
topology.domain:Domain.retag_shapes
topology.domain:Domain.retag_shapes_with_dimension
topology.domain:Domain.shape_index
topology.domain:Domain.shapes_with_physical_tag
topology.domain_market:build_box_1D
topology.domain_market:build_box_2D
topology.domain_market:build_box_2D_with_lines
topology.domain_market:build_box_3D
topology.domain_market:build_box_3D_with_planes
topology.domain_market:build_disjoint_lines
topology.domain_market:build_disjoint_planes
topology.domain_market:create_md_box_2D
topology.domain_market:read_fractures_file
topology.edge:Edge.__init__
topology.edge:Edge.admissible_dimensions
topology.edge:Edge.boundary_points
topology.face:Face.__init__
topology.face:Face.admissible_dimensions
topology.graphical_shape:draw_vertex_sequence
topology.operations.domain_operations:__append_shape
topology.operations.domain_operations:__plot_graph
topology.operations.domain_operations:create_domain
topology.operations.domain_operations:domain_difference
topology.operations.domain_operations:domain_intersection
topology.operations.domain_operations:domain_union
topology.operations.edge_operations:collapse_edge
topology.operations.edge_operations:edge_edge_boundary_intersection
topology.operations.edge_operations:edge_edge_intersection
topology.operations.edge_operations:edge_strong_equality_q
topology.operations.edge_operations:edge_with_same_geometry_q
topology.operations.vertex_operations:collapse_vertex
topology.operations.vertex_operations:vertex_edge_boundary_intersection
topology.operations.vertex_operations:vertex_edge_intersection
topology.operations.vertex_operations:vertex_strong_equality_q
topology.operations.vertex_operations:vertex_vertex_intersection
topology.operations.vertex_operations:vertex_with_same_geometry_q
topology.operations.vertex_operations:vertices_edge_difference
topology.operations.vertex_operations:vertices_edge_intersection
topology.operations.vertex_operations:vertices_edges_difference
topology.operations.vertex_operations:vertices_edges_intersection
topology.shape:Shape.__contains__
topology.shape:Shape.__eq__
topology.shape:Shape.__init__
topology.shape:Shape.__ne__
topology.shape:Shape.active
topology.shape:Shape.admissible_dimensions
topology.shape:Shape.boundary_shapes
topology.shape:Shape.composite
topology.shape:Shape.dimension
topology.shape:Shape.hash
topology.shape:Shape.immersed_shapes
topology.shape:Shape.index
topology.shape:Shape.physical_tag
topology.shape:Shape.shape_assignment
topology.shape:Shape.shape_dimension_by_type
topology.shape:Shape.tag
topology.shape_manipulation:collapse_vertex
topology.shape_manipulation:embed_edge_in_face
topology.shape_manipulation:embed_vertex_in_edge
topology.shape_manipulation:embed_vertex_in_edge_boundary
topology.shape_manipulation:intersect_edges
topology.shape_manipulation:intersect_faces
topology.shape_manipulation:point_line_intersection
topology.shape_manipulation:point_on_edge_boundary
topology.shape_manipulation:points_on_face_boundary
topology.shape_manipulation:vertex_edge_boundary_intersection
topology.shape_manipulation:vertex_edge_intersection
topology.shape_manipulation:vertex_strong_equality
topology.shape_manipulation:vertex_with_same_geometry
topology.shell:Shell.__init__
topology.shell:Shell.admissible_dimensions
topology.solid:Solid.__init__
topology.solid:Solid.admissible_dimensions
topology.vertex:Vertex.__eq__
topology.vertex:Vertex.__init__
topology.vertex:Vertex.admissible_dimensions
topology.vertex:Vertex.point
topology.vertex:Vertex.shape_assignment
topology.wire:Wire.__init__
topology.wire:Wire.admissible_dimensions
topology.wire:Wire.boundary_points
topology.wire:Wire.immersed_shapes
topology.wire:Wire.orient_immersed_edges
topology.wire:Wire.orient_immersed_vertices
weak_forms.degenerate_elliptic_weak_form:DegenerateEllipticWeakForm.evaluate_form
weak_forms.degenerate_elliptic_weak_form:DegenerateEllipticWeakFormBCDirichlet.evaluate_form
weak_forms.l2_projector_weak_form:L2ProjectorWeakForm.evaluate_form
weak_forms.laplace_dual_weak_form:LaplaceDualWeakForm.evaluate_form
weak_forms.laplace_dual_weak_form:LaplaceDualWeakFormBCDirichlet.evaluate_form
weak_forms.laplace_primal_weak_form:LaplacePrimalWeakForm.evaluate_form
weak_forms.laplace_primal_weak_form:LaplacePrimalWeakFormBCDirichlet.evaluate_form
weak_forms.lce_dual_weak_form:LCEDualWeakForm.evaluate_form
weak_forms.lce_dual_weak_form:LCEDualWeakForm.evaluate_form_vectorized
weak_forms.lce_dual_weak_form:LCEDualWeakFormBCDirichlet.evaluate_form
weak_forms.lce_dual_weak_form:LCEDualWeakFormBCNeumann.evaluate_form
weak_forms.lce_primal_weak_form:LCEPrimalWeakForm.evaluate_form
weak_forms.lce_primal_weak_form:LCEPrimalWeakFormBCDirichlet.evaluate_form
weak_forms.lce_riesz_map_weak_form:LCERieszMapWeakForm.evaluate_form
weak_forms.lce_riesz_map_weak_form:LCERieszMapWeakForm.evaluate_form_vectorized
weak_forms.lce_scaled_dual_weak_form:LCEDualWeakFormBCNeumann.evaluate_form
weak_forms.lce_scaled_dual_weak_form:LCEScaledDualWeakForm.evaluate_form
weak_forms.lce_scaled_dual_weak_form:LCEScaledDualWeakForm.evaluate_form_vectorized
weak_forms.lce_scaled_dual_weak_form:LCEScaledDualWeakFormBCDirichlet.evaluate_form
weak_forms.lce_scaled_riesz_map_weak_form:LCEScaledRieszMapWeakForm.evaluate_form
weak_forms.lce_scaled_riesz_map_weak_form:LCEScaledRieszMapWeakForm.evaluate_form_vectorized
weak_forms.le_dual_weak_form:LCEDualWeakFormBCNeumann.evaluate_form
weak_forms.le_dual_weak_form:LEDualWeakForm.evaluate_form
weak_forms.le_dual_weak_form:LEDualWeakForm.evaluate_form_vectorized
weak_forms.le_dual_weak_form:LEDualWeakFormBCDirichlet.evaluate_form
weak_forms.le_primal_stress_constraint_weak_form:LEPrimalStressConstraintWeakForm.evaluate_form
weak_forms.le_primal_weak_form:LEPrimalWeakForm.evaluate_form
weak_forms.le_primal_weak_form:LEPrimalWeakFormBCDirichlet.evaluate_form
weak_forms.le_primal_weak_form:LEPrimalWeakFormBCNeumann.evaluate_form
weak_forms.le_primal_weak_form:LEPrimalWeakFormBCNormalDirichlet.evaluate_form
weak_forms.le_riesz_map_weak_form:LERieszMapWeakForm.evaluate_form
weak_forms.le_riesz_map_weak_form:LERieszMapWeakForm.evaluate_form_vectorized
weak_forms.le_taylor_hood_weak_form:LETaylorHoodWeakForm.evaluate_form
weak_forms.le_taylor_hood_weak_form:LETaylorHoodWeakFormBCDirichlet.evaluate_form
weak_forms.scaled_to_physical_l2_projection:ScaledToPhysicalL2Projection.evaluate_form
weak_forms.unscaled_elliptic_weak_form:UnscaledEllipticWeakForm.__init__
weak_forms.unscaled_elliptic_weak_form:UnscaledEllipticWeakForm.evaluate_form
weak_forms.unscaled_elliptic_weak_form:UnscaledEllipticWeakForm.phi_threshold
weak_forms.unscaled_elliptic_weak_form:UnscaledEllipticWeakFormBCDirichlet.evaluate_form
weak_forms.weak_from:WeakForm.__init__
weak_forms.weak_from:WeakForm.evaluate_form
weak_forms.weak_from:WeakForm.functions
weak_forms.weak_from:WeakForm.space
""".split("\n"))
