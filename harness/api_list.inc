API(mkernel_clear_undo_state_for_id)
API(mkernel_contacts_compute_boundary)
API(mkernel_contacts_compute_multiple)
API(mkernel_contacts_compute_single)
API(mkernel_contacts_compute_with_points)
API(mkernel_contacts_compute_with_polygons)
API(mkernel_contacts_get_data)
API(mkernel_contacts_get_dimensions)
API(mkernel_contacts_set)
API(mkernel_curvilinear_compute_circular_grid)
API(mkernel_curvilinear_compute_curvature)
API(mkernel_curvilinear_compute_grid_from_splines)
API(mkernel_curvilinear_compute_orthogonal_grid_from_splines)
API(mkernel_curvilinear_compute_rectangular_grid)
API(mkernel_curvilinear_compute_rectangular_grid_from_polygon)
API(mkernel_curvilinear_compute_rectangular_grid_on_extension)
API(mkernel_curvilinear_compute_smoothness)
API(mkernel_curvilinear_compute_transfinite_from_polygon)
API(mkernel_curvilinear_compute_transfinite_from_splines)
API(mkernel_curvilinear_compute_transfinite_from_triangle)
API(mkernel_curvilinear_convert_to_mesh2d)
API(mkernel_curvilinear_count_boundaries_as_polygons)
API(mkernel_curvilinear_delete_exterior)
API(mkernel_curvilinear_delete_interior)
API(mkernel_curvilinear_delete_node)
API(mkernel_curvilinear_delete_orthogonal_grid_from_splines)
API(mkernel_curvilinear_derefine)
API(mkernel_curvilinear_finalize_line_shift)
API(mkernel_curvilinear_finalize_orthogonalize)
API(mkernel_curvilinear_full_refine)
API(mkernel_curvilinear_get_boundaries_as_polygons)
API(mkernel_curvilinear_get_data)
API(mkernel_curvilinear_get_dimensions)
API(mkernel_curvilinear_get_location_index)
API(mkernel_curvilinear_initialize_line_shift)
API(mkernel_curvilinear_initialize_orthogonal_grid_from_splines)
API(mkernel_curvilinear_initialize_orthogonalize)
API(mkernel_curvilinear_insert_face)
API(mkernel_curvilinear_iterate_orthogonal_grid_from_splines)
API(mkernel_curvilinear_line_attraction_repulsion)
API(mkernel_curvilinear_line_mirror)
API(mkernel_curvilinear_line_shift)
API(mkernel_curvilinear_move_node)
API(mkernel_curvilinear_move_node_line_shift)
API(mkernel_curvilinear_orthogonalize)
API(mkernel_curvilinear_refine)
API(mkernel_curvilinear_refresh_orthogonal_grid_from_splines)
API(mkernel_curvilinear_set)
API(mkernel_curvilinear_set_block_line_shift)
API(mkernel_curvilinear_set_block_orthogonalize)
API(mkernel_curvilinear_set_frozen_lines_orthogonalize)
API(mkernel_curvilinear_set_line_line_shift)
API(mkernel_curvilinear_smoothing)
API(mkernel_curvilinear_smoothing_directional)
API(mkernel_curvilinear_snap_to_landboundary)
API(mkernel_curvilinear_snap_to_spline)
API(mkernel_deallocate_state)
API(mkernel_expunge_state)
API(mkernel_get_projection)
API(mkernel_is_valid_state)
API(mkernel_mesh1d_add)
API(mkernel_mesh1d_get_data)
API(mkernel_mesh1d_get_dimensions)
API(mkernel_mesh1d_set)
API(mkernel_mesh2d_add)
API(mkernel_mesh2d_averaging_interpolation)
API(mkernel_mesh2d_casulli_derefinement)
API(mkernel_mesh2d_casulli_derefinement_elements)
API(mkernel_mesh2d_casulli_derefinement_elements_on_polygon)
API(mkernel_mesh2d_casulli_derefinement_on_polygon)
API(mkernel_mesh2d_casulli_refinement)
API(mkernel_mesh2d_casulli_refinement_on_polygon)
API(mkernel_mesh2d_compute_inner_ortogonalization_iteration)
API(mkernel_mesh2d_compute_orthogonalization)
API(mkernel_mesh2d_connect_meshes)
API(mkernel_mesh2d_convert_projection)
API(mkernel_mesh2d_convert_to_curvilinear)
API(mkernel_mesh2d_count_hanging_edges)
API(mkernel_mesh2d_count_mesh_boundaries_as_polygons)
API(mkernel_mesh2d_count_nodes_in_polygons)
API(mkernel_mesh2d_count_obtuse_triangles)
API(mkernel_mesh2d_count_small_flow_edge_centers)
API(mkernel_mesh2d_delete)
API(mkernel_mesh2d_delete_edge)
API(mkernel_mesh2d_delete_edge_by_index)
API(mkernel_mesh2d_delete_hanging_edges)
API(mkernel_mesh2d_delete_node)
API(mkernel_mesh2d_delete_orthogonalization)
API(mkernel_mesh2d_delete_small_flow_edges_and_small_triangles)
API(mkernel_mesh2d_finalize_inner_ortogonalization_iteration)
API(mkernel_mesh2d_flip_edges)
API(mkernel_mesh2d_get_closest_node)
API(mkernel_mesh2d_get_data)
API(mkernel_mesh2d_get_dimensions)
API(mkernel_mesh2d_get_edge)
API(mkernel_mesh2d_get_face_polygons)
API(mkernel_mesh2d_get_face_polygons_dimension)
API(mkernel_mesh2d_get_filtered_face_polygons)
API(mkernel_mesh2d_get_filtered_face_polygons_dimension)
API(mkernel_mesh2d_get_hanging_edges)
API(mkernel_mesh2d_get_location_index)
API(mkernel_mesh2d_get_mesh_boundaries_as_polygons)
API(mkernel_mesh2d_get_node_edge_data)
API(mkernel_mesh2d_get_node_index)
API(mkernel_mesh2d_get_nodes_in_polygons)
API(mkernel_mesh2d_get_obtuse_triangles_mass_centers)
API(mkernel_mesh2d_get_orthogonality)
API(mkernel_mesh2d_get_property)
API(mkernel_mesh2d_get_property_dimension)
API(mkernel_mesh2d_get_small_flow_edge_centers)
API(mkernel_mesh2d_get_smoothness)
API(mkernel_mesh2d_initialize_orthogonalization)
API(mkernel_mesh2d_insert_edge)
API(mkernel_mesh2d_insert_edge_from_coordinates)
API(mkernel_mesh2d_insert_node)
API(mkernel_mesh2d_intersections_from_polygon)
API(mkernel_mesh2d_make_global)
API(mkernel_mesh2d_make_rectangular_mesh)
API(mkernel_mesh2d_make_rectangular_mesh_from_polygon)
API(mkernel_mesh2d_make_rectangular_mesh_on_extension)
API(mkernel_mesh2d_make_triangular_mesh_from_polygon)
API(mkernel_mesh2d_make_triangular_mesh_from_samples)
API(mkernel_mesh2d_merge_nodes)
API(mkernel_mesh2d_merge_nodes_with_merging_distance)
API(mkernel_mesh2d_merge_two_nodes)
API(mkernel_mesh2d_move_node)
API(mkernel_mesh2d_prepare_outer_iteration_orthogonalization)
API(mkernel_mesh2d_refine_based_on_gridded_samples)
API(mkernel_mesh2d_refine_based_on_polygon)
API(mkernel_mesh2d_refine_based_on_samples)
API(mkernel_mesh2d_refine_ridges_based_on_gridded_samples)
API(mkernel_mesh2d_remove_disconnected_regions)
API(mkernel_mesh2d_rotate)
API(mkernel_mesh2d_set)
API(mkernel_mesh2d_snap_to_landboundary)
API(mkernel_mesh2d_split_row)
API(mkernel_mesh2d_translate)
API(mkernel_mesh2d_triangulation_interpolation)
API(mkernel_network1d_compute_fixed_chainages)
API(mkernel_network1d_compute_offsetted_chainages)
API(mkernel_network1d_set)
API(mkernel_network1d_to_mesh1d)
API(mkernel_polygon_count_linear_refine)
API(mkernel_polygon_count_offset)
API(mkernel_polygon_count_refine)
API(mkernel_polygon_get_included_points)
API(mkernel_polygon_get_offset)
API(mkernel_polygon_linear_refine)
API(mkernel_polygon_refine)
API(mkernel_polygon_snap_to_landboundary)
API(mkernel_splines_snap_to_landboundary)
API(mkernel_undo_state_count_for_id)
