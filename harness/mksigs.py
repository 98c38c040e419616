# C API signatures (ABI) used by the conformance driver: name -> (return, args)
SIGS = {
    'get_inner_outer_separator': ('double', ''),
    'allocate_state': ('int', 'int projectionType, int& meshKernelId'),
    'is_valid_state': ('int', 'int meshKernelId, bool& isValid'),
    'set_undo_size': ('int', 'int undoStackSize'),
    'undo_state': ('int', 'bool& undone, int& meshKernelId'),
    'undo_state_count': ('int', 'int& committedCount, int& restoredCount'),
    'undo_state_count_for_id': ('int', 'int meshKernelId, int& committedCount, int& restoredCount'),
    'redo_state': ('int', 'bool& redone, int& meshKernelId'),
    'clear_state': ('int', ''),
    'clear_undo_state': ('int', ''),
    'clear_undo_state_for_id': ('int', 'int meshKernelId'),
    'contacts_compute_boundary': ('int', 'int meshKernelId, int* oneDNodeMask, GeometryList& polygons, double searchRadius'),
    'contacts_compute_multiple': ('int', 'int meshKernelId, int* oneDNodeMask'),
    'contacts_compute_single': ('int', 'int meshKernelId, int* oneDNodeMask, GeometryList& polygons, double projectionFactor'),
    'contacts_compute_with_points': ('int', 'int meshKernelId, int* oneDNodeMask, GeometryList& points'),
    'contacts_compute_with_polygons': ('int', 'int meshKernelId, int* oneDNodeMask, GeometryList& polygons'),
    'contacts_get_data': ('int', 'int meshKernelId, Contacts& contacts'),
    'contacts_get_dimensions': ('int', 'int meshKernelId, Contacts& contacts'),
    'contacts_set': ('int', 'int meshKernelId, Contacts& contacts'),
    'curvilinear_compute_curvature': ('int', 'int meshKernelId, int direction, double* curvature'),
    'curvilinear_compute_orthogonal_grid_from_splines': ('int', 'int meshKernelId, GeometryList& geometryList, CurvilinearParameters& curvilinearParameters, SplinesToCurvilinearParameters& splinesToCurvilinearParameters'),
    'curvilinear_compute_grid_from_splines': ('int', 'int meshKernelId, GeometryList& geometryList, CurvilinearParameters& curvilinearParameters'),
    'curvilinear_compute_smoothness': ('int', 'int meshKernelId, int direction, double* smoothness'),
    'curvilinear_compute_transfinite_from_polygon': ('int', 'int meshKernelId, GeometryList& polygons, int firstNode, int secondNode, int thirdNode, int useFourthSide'),
    'curvilinear_compute_transfinite_from_splines': ('int', 'int meshKernelId, GeometryList& splines, CurvilinearParameters& curvilinearParameters'),
    'curvilinear_compute_transfinite_from_triangle': ('int', 'int meshKernelId, GeometryList& polygon, int firstNode, int secondNode, int thirdNode'),
    'curvilinear_convert_to_mesh2d': ('int', 'int meshKernelId'),
    'curvilinear_delete_exterior': ('int', 'int meshKernelId, double xFirstPointCoordinate, double yFirstPointCoordinate, double xSecondPointCoordinate, double ySecondPointCoordinate'),
    'curvilinear_delete_interior': ('int', 'int meshKernelId, double xFirstPointCoordinate, double yFirstPointCoordinate, double xSecondPointCoordinate, double ySecondPointCoordinate'),
    'curvilinear_delete_node': ('int', 'int meshKernelId, double xPointCoordinate, double yPointCoordinate'),
    'curvilinear_delete_orthogonal_grid_from_splines': ('int', 'int meshKernelId'),
    'curvilinear_derefine': ('int', 'int meshKernelId, double xLowerLeftCorner, double yLowerLeftCorner, double xUpperRightCorner, double yUpperRightCorner'),
    'curvilinear_finalize_line_shift': ('int', 'int meshKernelId'),
    'curvilinear_finalize_orthogonalize': ('int', 'int meshKernelId'),
    'curvilinear_get_data': ('int', 'int meshKernelId, CurvilinearGrid& curvilinearGrid'),
    'curvilinear_get_boundaries_as_polygons': ('int', 'int meshKernelId, int lowerLeftN, int lowerLeftM, int upperRightN, int upperRightM, GeometryList& boundaryPolygons'),
    'curvilinear_count_boundaries_as_polygons': ('int', 'int meshKernelId, int lowerLeftN, int lowerLeftM, int upperRightN, int upperRightM, int& numberOfPolygonNodes'),
    'curvilinear_get_dimensions': ('int', 'int meshKernelId, CurvilinearGrid& curvilinearGrid'),
    'curvilinear_get_location_index': ('int', 'int meshKernelId, double xCoordinate, double yCoordinate, int locationType, BoundingBox& boundingBox, int& locationIndex'),
    'curvilinear_initialize_line_shift': ('int', 'int meshKernelId'),
    'curvilinear_initialize_orthogonal_grid_from_splines': ('int', 'int meshKernelId, GeometryList& geometryList, CurvilinearParameters& curvilinearParameters, SplinesToCurvilinearParameters& splinesToCurvilinearParameters'),
    'curvilinear_initialize_orthogonalize': ('int', 'int meshKernelId, OrthogonalizationParameters& orthogonalizationParameters'),
    'curvilinear_insert_face': ('int', 'int meshKernelId, double xCoordinate, double yCoordinate'),
    'curvilinear_iterate_orthogonal_grid_from_splines': ('int', 'int meshKernelId, int layer'),
    'curvilinear_line_attraction_repulsion': ('int', 'int meshKernelId, double repulsionParameter, double xFirstNodeOnTheLine, double yFirstNodeOnTheLine, double xSecondNodeOnTheLine, double ySecondNodeOnTheLine, double xLowerLeftCorner, double yLowerLeftCorner, double xUpperRightCorner, double yUpperRightCorner'),
    'curvilinear_line_mirror': ('int', 'int meshKernelId, double mirroringFactor, double xFirstGridLineNode, double yFirstGridLineNode, double xSecondGridLineNode, double ySecondGridLineNode'),
    'curvilinear_line_shift': ('int', 'int meshKernelId'),
    'curvilinear_compute_rectangular_grid': ('int', 'int meshKernelId, MakeGridParameters& makeGridParameters'),
    'curvilinear_compute_rectangular_grid_from_polygon': ('int', 'int meshKernelId, MakeGridParameters& makeGridParameters, GeometryList& geometryList'),
    'curvilinear_compute_rectangular_grid_on_extension': ('int', 'int meshKernelId, MakeGridParameters& makeGridParameters'),
    'curvilinear_compute_circular_grid': ('int', 'int meshKernelId, MakeGridParameters& parameters'),
    'curvilinear_move_node': ('int', 'int meshKernelId, double xFromPoint, double yFromPoint, double xToPoint, double yToPoint'),
    'curvilinear_move_node_line_shift': ('int', 'int meshKernelId, double xFromCoordinate, double yFromCoordinate, double xToCoordinate, double yToCoordinate'),
    'curvilinear_orthogonalize': ('int', 'int meshKernelId'),
    'curvilinear_refine': ('int', 'int meshKernelId, double xLowerLeftCorner, double yLowerLeftCorner, double xUpperRightCorner, double yUpperRightCorner, int refinement'),
    'curvilinear_refresh_orthogonal_grid_from_splines': ('int', 'int meshKernelId'),
    'curvilinear_full_refine': ('int', 'int meshKernelId, int mRefinement, int nRefinement'),
    'curvilinear_set': ('int', 'int meshKernelId, CurvilinearGrid& grid'),
    'curvilinear_set_block_line_shift': ('int', 'int meshKernelId, double xLowerLeftCorner, double yLowerLeftCorner, double xUpperRightCorner, double yUpperRightCorner'),
    'curvilinear_set_block_orthogonalize': ('int', 'int meshKernelId, double xLowerLeftCorner, double yLowerLeftCorner, double xUpperRightCorner, double yUpperRightCorner'),
    'curvilinear_set_frozen_lines_orthogonalize': ('int', 'int meshKernelId, double xFirstGridLineNode, double yFirstGridLineNode, double xSecondGridLineNode, double ySecondGridLineNode'),
    'curvilinear_set_line_line_shift': ('int', 'int meshKernelId, double xFirstGridLineNode, double yFirstGridLineNode, double xSecondGridLineNode, double ySecondGridLineNode'),
    'curvilinear_smoothing': ('int', 'int meshKernelId, int smoothingIterations, double xLowerLeftCorner, double yLowerLeftCorner, double xUpperRightCorner, double yUpperRightCorner'),
    'curvilinear_smoothing_directional': ('int', 'int meshKernelId, int smoothingIterations, double xFirstGridlineNode, double yFirstGridlineNode, double xSecondGridLineNode, double ySecondGridLineNode, double xLowerLeftCornerSmoothingArea, double yLowerLeftCornerSmoothingArea, double xUpperRightCornerSmootingArea, double yUpperRightCornerSmootingArea'),
    'curvilinear_snap_to_landboundary': ('int', 'int meshKernelId, GeometryList& land, double sectionControlPoint1x, double sectionControlPoint1y, double sectionControlPoint2x, double sectionControlPoint2y, double regionControlPointX, double regionControlPointY'),
    'curvilinear_snap_to_spline': ('int', 'int meshKernelId, GeometryList& spline, double sectionControlPoint1x, double sectionControlPoint1y, double sectionControlPoint2x, double sectionControlPoint2y, double regionControlPointX, double regionControlPointY'),
    'deallocate_state': ('int', 'int meshKernelId'),
    'expunge_state': ('int', 'int meshKernelId'),
    'get_averaging_method_closest_point': ('int', 'int& method'),
    'get_averaging_method_inverse_distance_weighting': ('int', 'int& method'),
    'get_averaging_method_max': ('int', 'int& method'),
    'get_averaging_method_min': ('int', 'int& method'),
    'get_averaging_method_min_absolute_value': ('int', 'int& method'),
    'get_averaging_method_simple_averaging': ('int', 'int& method'),
    'get_edges_location_type': ('int', 'int& type'),
    'get_error': ('int', 'char* errorMessage'),
    'get_exit_code_success': ('int', 'int& exitCode'),
    'get_exit_code_meshkernel_error': ('int', 'int& exitCode'),
    'get_exit_code_not_implemented_error': ('int', 'int& exitCode'),
    'get_exit_code_algorithm_error': ('int', 'int& exitCode'),
    'get_exit_code_constraint_error': ('int', 'int& exitCode'),
    'get_exit_code_mesh_geometry_error': ('int', 'int& exitCode'),
    'get_exit_code_linear_algebra_error': ('int', 'int& exitCode'),
    'get_exit_code_range_error': ('int', 'int& exitCode'),
    'get_exit_code_stdlib_exception': ('int', 'int& exitCode'),
    'get_exit_code_unknown_exception': ('int', 'int& exitCode'),
    'get_faces_location_type': ('int', 'int& type'),
    'get_geometry_error': ('int', 'int& invalidIndex, int& type'),
    'get_interpolation_type_short': ('int', 'int& type'),
    'get_interpolation_type_float': ('int', 'int& type'),
    'get_interpolation_type_int': ('int', 'int& type'),
    'get_interpolation_type_double': ('int', 'int& type'),
    'get_nodes_location_type': ('int', 'int& type'),
    'get_projection': ('int', 'int meshKernelId, int& projection'),
    'get_projection_cartesian': ('int', 'int& projection'),
    'get_projection_spherical': ('int', 'int& projection'),
    'get_projection_spherical_accurate': ('int', 'int& projection'),
    'get_splines': ('int', 'GeometryList& geometryListIn, GeometryList& geometryListOut, int numberOfPointsBetweenNodes'),
    'get_version': ('int', 'char* version'),
    'mesh1d_get_data': ('int', 'int meshKernelId, Mesh1D& mesh1d'),
    'mesh1d_get_dimensions': ('int', 'int meshKernelId, Mesh1D& mesh1d'),
    'mesh1d_set': ('int', 'int meshKernelId, Mesh1D& mesh1d'),
    'mesh1d_add': ('int', 'int meshKernelId, Mesh1D& mesh1d'),
    'mesh2d_averaging_interpolation': ('int', 'int meshKernelId, GeometryList& samples, int locationType, int averagingMethodType, double relativeSearchSize, size_t minNumSamples, GeometryList& results'),
    'mesh2d_compute_inner_ortogonalization_iteration': ('int', 'int meshKernelId'),
    'mesh2d_rotate': ('int', 'int meshKernelId, double centreX, double centreY, double theta'),
    'splines_snap_to_landboundary': ('int', 'int meshKernelId, GeometryList& land, GeometryList& splines, int startSplineIndex, int endSplineIndex'),
    'mesh2d_translate': ('int', 'int meshKernelId, double translationX, double translationY'),
    'mesh2d_casulli_derefinement_elements': ('int', 'int meshKernelId, GeometryList& elements'),
    'mesh2d_casulli_derefinement_elements_on_polygon': ('int', 'int meshKernelId, GeometryList& polygonGeometry, GeometryList& elements'),
    'mesh2d_casulli_derefinement': ('int', 'int meshKernelId'),
    'mesh2d_casulli_derefinement_on_polygon': ('int', 'int meshKernelId, GeometryList& polygons'),
    'mesh2d_casulli_refinement': ('int', 'int meshKernelId'),
    'mesh2d_casulli_refinement_on_polygon': ('int', 'int meshKernelId, GeometryList& polygons'),
    'mesh2d_compute_orthogonalization': ('int', 'int meshKernelId, int projectToLandBoundaryOption, OrthogonalizationParameters& orthogonalizationParameters, GeometryList& selectingPolygon, GeometryList& landBoundaries'),
    'mesh2d_connect_meshes': ('int', 'int meshKernelId, Mesh2D& mesh2d, double searchFraction'),
    'mesh2d_convert_projection': ('int', 'int meshKernelId, int projectionType, char* zoneString'),
    'mesh2d_convert_to_curvilinear': ('int', 'int meshKernelId, double xPointCoordinate, double yPointCoordinate'),
    'mesh2d_count_hanging_edges': ('int', 'int meshKernelId, int& numEdges'),
    'mesh2d_count_mesh_boundaries_as_polygons': ('int', 'int meshKernelId, int& numberOfPolygonNodes'),
    'mesh2d_count_nodes_in_polygons': ('int', 'int meshKernelId, GeometryList& geometryListIn, int inside, int& numberOfMeshNodes'),
    'mesh2d_count_obtuse_triangles': ('int', 'int meshKernelId, int& numObtuseTriangles'),
    'mesh2d_count_small_flow_edge_centers': ('int', 'int meshKernelId, double smallFlowEdgesLengthThreshold, int& numSmallFlowEdges'),
    'mesh2d_delete': ('int', 'int meshKernelId, GeometryList& polygon, int deletionOption, int invertDeletion'),
    'mesh2d_delete_edge': ('int', 'int meshKernelId, double xCoordinate, double yCoordinate, double xLowerLeftBoundingBox, double yLowerLeftBoundingBox, double xUpperRightBoundingBox, double yUpperRightBoundingBox'),
    'mesh2d_delete_edge_by_index': ('int', 'int meshKernelId, int edgeIndex'),
    'mesh2d_delete_hanging_edges': ('int', 'int meshKernelId'),
    'mesh2d_delete_node': ('int', 'int meshKernelId, int nodeIndex'),
    'mesh2d_delete_orthogonalization': ('int', 'int meshKernelId'),
    'mesh2d_delete_small_flow_edges_and_small_triangles': ('int', 'int meshKernelId, double smallFlowEdgesThreshold, double minFractionalAreaTriangles'),
    'mesh2d_finalize_inner_ortogonalization_iteration': ('int', 'int meshKernelId'),
    'mesh2d_flip_edges': ('int', 'int meshKernelId, int isTriangulationRequired, int projectToLandBoundaryRequired, GeometryList& selectingPolygon, GeometryList& landBoundaries'),
    'mesh2d_get_closest_node': ('int', 'int meshKernelId, double xCoordinateIn, double yCoordinateIn, double searchRadius, double xLowerLeftBoundingBox, double yLowerLeftBoundingBox, double xUpperRightBoundingBox, double yUpperRightBoundingBox, double& xCoordinateOut, double& yCoordinateOut'),
    'mesh2d_get_data': ('int', 'int meshKernelId, Mesh2D& mesh2d'),
    'mesh2d_get_orthogonality_property_type': ('int', 'int& type'),
    'mesh2d_get_node_edge_data': ('int', 'int meshKernelId, Mesh2D& mesh2d'),
    'mesh2d_get_dimensions': ('int', 'int meshKernelId, Mesh2D& mesh2d'),
    'mesh2d_get_edge': ('int', 'int meshKernelId, double xCoordinate, double yCoordinate, double xLowerLeftBoundingBox, double yLowerLeftBoundingBox, double xUpperRightBoundingBox, double yUpperRightBoundingBox, int& edgeIndex'),
    'mesh2d_get_hanging_edges': ('int', 'int meshKernelId, int* edges'),
    'mesh2d_get_face_polygons': ('int', 'int meshKernelId, int numEdges, GeometryList& facePolygons'),
    'mesh2d_get_face_polygons_dimension': ('int', 'int meshKernelId, int numEdges, int& geometryListDimension'),
    'mesh2d_get_filtered_face_polygons_dimension': ('int', 'int meshKernelId, int propertyValue, double minValue, double maxValue, int& geometryListDimension'),
    'mesh2d_get_filtered_face_polygons': ('int', 'int meshKernelId, int propertyValue, double minValue, double maxValue, GeometryList& facePolygons'),
    'mesh2d_get_location_index': ('int', 'int meshKernelId, double xCoordinate, double yCoordinate, int locationType, BoundingBox& boundingBox, int& locationIndex'),
    'mesh2d_get_mesh_boundaries_as_polygons': ('int', 'int meshKernelId, GeometryList& boundaryPolygons'),
    'mesh2d_get_node_index': ('int', 'int meshKernelId, double xCoordinate, double yCoordinate, double searchRadius, double xLowerLeftBoundingBox, double yLowerLeftBoundingBox, double xUpperRightBoundingBox, double yUpperRightBoundingBox, int& nodeIndex'),
    'mesh2d_get_nodes_in_polygons': ('int', 'int meshKernelId, GeometryList& geometryListIn, int inside, int* selectedNodes'),
    'mesh2d_get_obtuse_triangles_mass_centers': ('int', 'int meshKernelId, GeometryList& result'),
    'mesh2d_get_orthogonality': ('int', 'int meshKernelId, GeometryList& geometryList'),
    'mesh2d_get_property': ('int', 'int meshKernelId, int propertyValue, GeometryList& geometrylist'),
    'mesh2d_get_property_dimension': ('int', 'int meshKernelId, int propertyValue, int& dimension'),
    'mesh2d_get_small_flow_edge_centers': ('int', 'int meshKernelId, double smallFlowEdgesThreshold, GeometryList& result'),
    'mesh2d_get_smoothness': ('int', 'int meshKernelId, GeometryList& geometryList'),
    'mesh2d_initialize_orthogonalization': ('int', 'int meshKernelId, int projectToLandBoundaryOption, OrthogonalizationParameters& orthogonalizationParameters, GeometryList& selectingPolygon, GeometryList& landBoundaries'),
    'mesh2d_insert_edge': ('int', 'int meshKernelId, int startNode, int endNode, int& newEdgeIndex'),
    'mesh2d_insert_edge_from_coordinates': ('int', 'int meshKernelId, double firstNodeX, double firstNodeY, double secondNodeX, double secondNodeY, int& firstNodeIndex, int& secondNodeIndex, int& edgeIndex'),
    'mesh2d_insert_node': ('int', 'int meshKernelId, double xCoordinate, double yCoordinate, int& nodeIndex'),
    'mesh2d_intersections_from_polygon': ('int', 'int meshKernelId, GeometryList& boundaryPolygon, int* edgeNodes, int* edgeIndex, double* edgeDistances, double* segmentDistances, int* segmentIndexes, int* faceIndexes, int* faceNumEdges, int* faceEdgeIndex'),
    'mesh2d_make_global': ('int', 'int meshKernelId, int numLongitudeNodes, int numLatitudeNodes'),
    'mesh2d_make_triangular_mesh_from_polygon': ('int', 'int meshKernelId, GeometryList& polygonPoints'),
    'mesh2d_make_triangular_mesh_from_samples': ('int', 'int meshKernelId, GeometryList& samples'),
    'mesh2d_make_rectangular_mesh': ('int', 'int meshKernelId, MakeGridParameters& makeGridParameters'),
    'mesh2d_make_rectangular_mesh_from_polygon': ('int', 'int meshKernelId, MakeGridParameters& makeGridParameters, GeometryList& geometryList'),
    'mesh2d_make_rectangular_mesh_on_extension': ('int', 'int meshKernelId, MakeGridParameters& makeGridParameters'),
    'mesh2d_merge_nodes': ('int', 'int meshKernelId, GeometryList& geometryListIn'),
    'mesh2d_merge_nodes_with_merging_distance': ('int', 'int meshKernelId, GeometryList& geometryListIn, double mergingDistance'),
    'mesh2d_merge_two_nodes': ('int', 'int meshKernelId, int firstNode, int secondNode'),
    'mesh2d_move_node': ('int', 'int meshKernelId, double xCoordinate, double yCoordinate, int nodeIndex'),
    'mesh2d_prepare_outer_iteration_orthogonalization': ('int', 'int meshKernelId'),
    'mesh2d_refine_based_on_gridded_samples': ('int', 'int meshKernelId, GriddedSamples& griddedSamples, MeshRefinementParameters& meshRefinementParameters, bool useNodalRefinement'),
    'mesh2d_refine_based_on_polygon': ('int', 'int meshKernelId, GeometryList& geometryList, MeshRefinementParameters& meshRefinementParameters'),
    'mesh2d_refine_based_on_samples': ('int', 'int meshKernelId, GeometryList& samples, double relativeSearchRadius, int minimumNumSamples, MeshRefinementParameters& meshRefinementParameters'),
    'mesh2d_refine_ridges_based_on_gridded_samples': ('int', 'int meshKernelId, GriddedSamples& griddedSamples, double relativeSearchRadius, int minimumNumSamples, int numberOfSmoothingIterations, MeshRefinementParameters& meshRefinementParameters'),
    'mesh2d_remove_disconnected_regions': ('int', 'int meshKernelId'),
    'mesh2d_set': ('int', 'int meshKernelId, Mesh2D& mesh2d'),
    'mesh2d_snap_to_landboundary': ('int', 'int meshKernelId, GeometryList& selectingPolygon, GeometryList& landBoundaries'),
    'mesh2d_split_row': ('int', 'int meshKernelId, int firstNode, int secondNode'),
    'mesh2d_add': ('int', 'int meshKernelId, Mesh2D& mesh2d'),
    'mesh2d_triangulation_interpolation': ('int', 'int meshKernelId, GeometryList& samples, int locationType, GeometryList& results'),
    'network1d_compute_fixed_chainages': ('int', 'int meshKernelId, double* fixedChainages, int sizeFixedChainages, double minFaceSize, double fixedChainagesOffset'),
    'network1d_compute_offsetted_chainages': ('int', 'int meshKernelId, double offset'),
    'network1d_set': ('int', 'int meshKernelId, GeometryList& polylines'),
    'network1d_to_mesh1d': ('int', 'int meshKernelId, double minFaceSize'),
    'polygon_count_offset': ('int', 'int meshKernelId, GeometryList& geometryListIn, int innerPolygon, double distance, int& numberOfPolygonNodes'),
    'polygon_count_refine': ('int', 'int meshKernelId, GeometryList& polygonToRefine, int firstIndex, int secondIndex, double distance, int& numberOfPolygonNodes'),
    'polygon_count_linear_refine': ('int', 'int meshKernelId, GeometryList& polygonToRefine, int firstIndex, int secondIndex, int& numberOfPolygonNodes'),
    'polygon_get_included_points': ('int', 'int meshKernelId, GeometryList& selectingPolygon, GeometryList& polygonToSelect, GeometryList& selectionResults'),
    'polygon_get_offset': ('int', 'int meshKernelId, GeometryList& geometryListIn, int inWard, double distance, GeometryList& geometryListOut'),
    'polygon_refine': ('int', 'int meshKernelId, GeometryList& polygonToRefine, int firstNodeIndex, int secondNodeIndex, double targetEdgeLength, GeometryList& refinedPolygon'),
    'polygon_linear_refine': ('int', 'int meshKernelId, GeometryList& polygonToRefine, int firstNodeIndex, int secondNodeIndex, GeometryList& refinedPolygon'),
    'polygon_snap_to_landboundary': ('int', 'int meshKernelId, GeometryList& land, GeometryList& polygon, int startIndex, int endIndex'),
}
