
prop("C08", "What a call does depends on the content, not on the history",
     "An editing call does the same to an instance as it does to a fresh instance that was given the same mesh, grid and contacts: same return code, same resulting 2D mesh, 1D mesh, grid and contacts, no matter through which edits, failed calls, queries, undos and redos the content came about.",
     ["histories", "inputs"], "all editing calls after any history of edits, queries, failed calls, undos and redos",
     "Tests run a call on a freshly loaded mesh; stale caches (search trees, edge lengths, connectivity, grid offsets) only matter after other calls.",
     [API, "libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp"],
     [("cached administration, search trees and grid offsets are flagged for update by every edit, undo and redo", "libs/MeshKernel/src/Mesh.cpp")], SESS, SNOTE, USTATE)

M2D = ["libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/src/Mesh2D.cpp", API]
MSPEC = "TLA+ mesh specification (spec/Mesh.tla, Plane.tla) model checked with TLC (MeshMC); TLC-generated edit behaviours and random histories on lattice meshes driven through the real C API; every recorded event validated by TLC against the specification (MeshTrace.tla)"
MNOTE = ("The edit model is checked exhaustively on small lattices (37,433 states quick, 118,626 thorough). The code is bound by trace validation in exact integer arithmetic: about 840-1,100 histories "
         "and 20,000 events per quick run, each judged against the operators of the specification. Sampled meshes (up to 25 cells, triangles to hexagons, holes, several parts, loose edges), exhaustive judgement. Cartesian projection.")
MSTATE = [("nodes and edges", "raw node and edge arrays with invalidated entries", "libs/MeshKernel/include/MeshKernel/Mesh.hpp"),
          ("administration", "derived faces, edge-face and node-edge tables", "libs/MeshKernel/src/Mesh2D.cpp")]
prop("C09", "Reported mesh connectivity is the planar connectivity of nodes and edges",
     "For any planar 2D mesh, what the library reports about it is consistent and complete: every edge joins two different valid nodes; the faces are exactly the cells of three to six corners that the edges enclose, each once, counter-clockwise, each listing the edges between its consecutive nodes; an edge names exactly the faces that list it; edge centres are mid-points and face centres are centres of mass; the counts agree with the arrays.",
     ["inputs", "histories"], "all planar meshes, and all edit histories leading to them",
     "Tests compare a few meshes with stored arrays; faces are found by a walk whose corner cases depend on numbering, edge directions, holes, loose edges and invalidated entries.",
     M2D, [("Administrate compacts, FindFaces walks the edges, faces are classified and centred", "libs/MeshKernel/src/Mesh2D.cpp")], MSPEC, MNOTE, MSTATE)
prop("C10", "Elementary mesh edits change exactly what was asked",
     "Inserting, connecting, moving, deleting and merging two nodes, deleting edges (by index, position, or all hanging ones), translating, rotating, setting and joining meshes change exactly the nodes and edges asked for: nothing else appears, disappears, moves, is reconnected or renumbered; nothing is inserted twice; the returned indices name the new entries.",
     ["inputs", "histories"], "all sequences of elementary edits on all meshes",
     "Tests look at one edit on one mesh, mostly at counts; side effects on other nodes and edges depend on the mesh and on earlier deletions.",
     M2D, [("Mesh::InsertNode, ConnectNodes, DeleteNode, DeleteEdge, MergeTwoNodes, MoveNode and the += of meshes", "libs/MeshKernel/src/Mesh.cpp")], MSPEC, MNOTE, MSTATE)
prop("C11", "Polygon selections and deletions agree with the geometry",
     "A point, node or face is treated as inside a set of polygons exactly when it is inside geometrically (points exactly on the border excepted): the points and nodes reported as included, and the edges and faces removed by deleting inside or outside polygons under each deletion option, are exactly those; everything else in the mesh stays as it was.",
     ["inputs"], "all polygon sets (several parts, holes, any orientation and start) and all meshes",
     "Tests use a handful of polygons; point-in-polygon and crossing decisions fail on particular alignments, orientations and multi-part polygons.",
     M2D + ["libs/MeshKernel/src/Polygons.cpp", "libs/MeshKernel/src/Polygon.cpp", "libs/MeshKernel/src/PolygonalEnclosure.cpp", "libs/MeshKernel/src/Operations.cpp"],
     [("IsPointInPolygonNodes, Polygons and Mesh2D::DeleteMesh with its deletion options", "libs/MeshKernel/src/Mesh2D.cpp")], MSPEC, MNOTE, MSTATE)
prop("C12", "Lookups return the nearest entity",
     "Asking for the node, edge or location nearest to a point returns one at minimal distance among the valid entities inside the given radius or box, and reports that there is none exactly when there is none.",
     ["inputs", "histories"], "all meshes, query points, radii and boxes, after any edits",
     "Nearest-neighbour answers are right on a regular sample and wrong after deletions or for particular boxes; a test samples a few points.",
     M2D + ["libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp"], [("lazily rebuilt search trees over nodes, edge centres and face centres", "libs/MeshKernel/src/Mesh.cpp")], MSPEC, MNOTE, MSTATE)
prop("C13", "Boundary and face polygons trace the mesh",
     "The polygons bounding a mesh are closed rings that run over every edge with a face on one side only exactly once and over nothing else; the face polygons with a given number of corners are exactly the faces of the mesh with that many corners, each once, and the announced size is the size needed.",
     ["inputs", "histories"], "all planar meshes, with holes and several parts, after any edits",
     "Tests compare a few outlines; the walk over the boundary branches at nodes where parts touch, at holes and at loose edges.",
     M2D, [("MeshBoundaryToPolygon and face polygon extraction", "libs/MeshKernel/src/Mesh.cpp")], MSPEC, MNOTE, MSTATE)

CG = "libs/MeshKernel/src/CurvilinearGrid/"
GFILES = [CG + "CurvilinearGrid.cpp", API]
GSPEC = "TLA+ curvilinear grid specification (spec/Grid.tla) model checked with TLC (GridMC, with undo history); TLC-generated and random histories driven through the real C API; every recorded event validated by TLC (GridTrace.tla)"
GNOTE = ("The grid model is checked exhaustively on grids up to 3x3 (quick) or 4x3 (thorough) with its undo history. The code is bound by trace validation in integer arithmetic: about 2,000-3,200 histories and "
         "20,000-30,000 events per quick run on grids up to 6x6 with missing nodes, skewed and jittered. Sampled histories, exhaustive judgement.")
GSTATE = [("grid nodes", "matrix of nodes with missing ones, and hidden border lines left by undo", CG + "CurvilinearGrid.cpp")]
prop("C14", "Curvilinear grid edits change exactly the lines and nodes asked for",
     "Setting, moving and deleting nodes, deleting the inside or outside of a block, inserting a face at a border edge, mirroring a border line, refining and de-refining lines of a curvilinear grid give exactly the grid described: existing nodes keep their place and position, the grid grows or shrinks by exactly the lines asked for, new nodes lie at the prescribed position (mirrored, or evenly spaced on straight lines), nodes of removed faces disappear and nothing else does; impossible requests (a face at an edge that has two) are refused.",
     ["inputs", "histories"], "all grids with missing nodes and all sequences of edits, undos and redos",
     "Tests check a few node coordinates after one edit of one full grid; the index arithmetic at each of the four sides, with missing nodes and after undone lines, is not sampled.",
     GFILES + [CG + "CurvilinearGridRefinement.cpp", CG + "CurvilinearGridDeRefinement.cpp", CG + "CurvilinearGridLineMirror.cpp", CG + "CurvilinearGridDeleteInterior.cpp", CG + "CurvilinearGridDeleteExterior.cpp"],
     [("grid lines are added at a border, or hidden ones are shown again; node types decide the side", CG + "CurvilinearGrid.cpp")], GSPEC, GNOTE, GSTATE)
prop("C15", "Curvilinear grid answers and conversions agree with the grid",
     "The nearest node, edge and face of a curvilinear grid to a point (within a box), its boundary polygons, its conversion to a 2D mesh (same nodes and edges, once each, an existing mesh kept) and the conversion of a mesh back to a grid (same faces in the same arrangement) all describe the grid that is there.",
     ["inputs", "histories"], "all grids with missing nodes, after any edits, undos and redos",
     "Tests convert and query full regular grids only; missing nodes and earlier edits change numbering and search trees.",
     GFILES + ["libs/MeshKernel/src/Mesh2DToCurvilinear.cpp"], [("flattened node, edge and face numbering, search trees, boundary walk", CG + "CurvilinearGrid.cpp")], GSPEC, GNOTE, GSTATE)
prop("C16", "Curvilinear deformations stay inside the given block and keep the topology",
     "Smoothing (also directional), orthogonalization, line attraction and repulsion, line shift and snapping of a curvilinear grid move only nodes inside the block or line range they were given; frozen interior lines and the attracting line itself do not move; no node appears, disappears or becomes undefined; a shifted line passes through the point it was moved to; a refused deformation moves nothing.",
     ["inputs"], "all grids with missing nodes, all blocks and lines",
     "Tests check a few coordinates inside the block; that nothing outside it moves, for every block position relative to the borders, is not tested.",
     [CG + "CurvilinearGridSmoothing.cpp", CG + "CurvilinearGridOrthogonalization.cpp", CG + "CurvilinearGridLineShift.cpp", CG + "CurvilinearGridLineAttractionRepulsion.cpp", CG + "CurvilinearGridSnapping.cpp", API],
     [("each algorithm loops over block indices and node types", CG + "CurvilinearGridAlgorithm.cpp")], GSPEC, GNOTE, GSTATE)

def tspec(what, mods, trace):
    return ("TLA+ specification of %s (%s) as a relation between what goes in and what comes out, in exact integer arithmetic; scenarios on lattices driven through the real C API; "
            "every recorded call validated by TLC against the relation (%s)" % (what, mods, trace))


def tnote(n):
    return "Code bound by trace validation: about %s scenarios per quick run, each recorded call judged by TLC against the specification in exact integer arithmetic. Sampled inputs, exhaustive judgement; Cartesian projection." % n


prop("C17", "Mesh refinement subdivides faces and leaves the rest",
     "Refining a mesh by polygon, by samples (refinement levels or Courant), by splitting a row of quadrilaterals, keeps every existing node at its index and place, replaces a face by faces that together cover it exactly and overlap nowhere, adds no node twice and leaves no node in the middle of an edge that is not split there; with connected hanging nodes no face keeps a node in the middle of a side; faces well inside the polygon, or with a sample asking for refinement, and long enough edges are refined, faces away from polygon and samples stay. Splitting a row cuts each edge of the row at its middle. Casulli refinement of a quadrilateral mesh keeps the covered area and all nodes and faces outside the polygon.",
     ["inputs"], "all planar meshes of triangles and quadrilaterals, polygons, sample sets and refinement parameters",
     "Tests compare counts and a few coordinates for a handful of cases; overlaps, duplicate or hanging nodes appear for particular combinations of neighbouring faces.",
     ["libs/MeshKernel/src/MeshRefinement.cpp", "libs/MeshKernel/src/SplitRowColumnOfMesh.cpp", "libs/MeshKernel/src/CasulliRefinement.cpp", API],
     [("masks of faces and edges to refine are computed iteratively, hanging nodes found and connected, edges split", "libs/MeshKernel/src/MeshRefinement.cpp")],
     tspec("mesh refinement", "spec/Refine.tla, Plane.tla", "RefineTrace.tla"), tnote("1,280"),
     MSTATE)
prop("C18", "Contacts between 1D and 2D meshes join the right nodes and faces",
     "Each of the five ways of computing contacts (single, multiple, with polygons, with points, boundary) yields contacts between existing, unmasked 1D nodes and existing faces only, and exactly the prescribed ones: a node in a face is joined to it, a node outside to the first boundary face met left and right, never across the 1D mesh or another contact; a face crossed by the 1D mesh to the nearer end of the crossing edge; a point's face to the nearest 1D node; a polygon to the nearest pair of node and face inside it; a boundary face to the nearest node within reach; nothing outside the given polygons.",
     ["inputs"], "all 1D meshes, masks, polygons, points and rectangular 2D meshes",
     "Tests compare index lists for a few configurations; masks, orderings, polygons without faces and nodes on several branches are not sampled.",
     ["libs/MeshKernel/src/Contacts.cpp", API], [("the five contact computations with node mask and polygons", "libs/MeshKernel/src/Contacts.cpp")],
     tspec("contacts", "spec/Contact.tla, Plane.tla", "ContactTrace.tla"), tnote("5,000"),
     [("contacts", "pairs of 1D node and 2D face", "libs/MeshKernel/src/Contacts.cpp")])
prop("C19", "Generated meshes, grids and networks are exactly those asked for",
     "Rectangular meshes and grids by size, by extension and in a polygon have exactly the prescribed nodes and links (with angle and cell sizes; in a polygon every cell whose corners lie inside and none with a corner outside); transfinite grids from a polygon or from splines have the prescribed lines through the given points; a mesh from samples consists of the Delaunay triangles of the samples; a 1D mesh from a network has nodes at the line ends, at the prescribed offsets around fixed chainages and at equal distances of at most the asked length in between, linked in order along each line. What the instance held before is kept, and each node and link is made once.",
     ["inputs"], "all sizes, angles, extensions, polygons, splines, sample sets and networks",
     "Tests check counts and some coordinates of one case per generator; start positions, orientations, more lines or unusual segment lengths are not sampled.",
     [CG + "CurvilinearGridRectangular.cpp", CG + "CurvilinearGridFromPolygon.cpp", CG + "CurvilinearGridFromSplinesTransfinite.cpp", "libs/MeshKernel/src/Network1D.cpp", "libs/MeshKernel/src/Mesh1D.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/Operations.cpp", API],
     [("each generator builds a node matrix or node and edge lists, which are set or added to the instance", API)],
     tspec("the generators", "spec/Make.tla, Plane.tla", "MakeTrace.tla"), tnote("8,000"),
     MSTATE + GSTATE)
prop("C20", "Polygon operations give the polygon asked for",
     "Refining a polygon between two nodes (also over its start) cuts every side in equal parts closest to the asked length and leaves the others; linear refinement keeps what lies outside the interval and puts its points one after the other on the sides in between; the offset of polygons with holes and several parts puts every side at the asked distance, on one side or on both, and keeps the polygons apart; snapping to land boundaries moves exactly the asked nodes, each to the nearest point of the land boundaries; the triangulation of a polygon fills it exactly with triangles on its nodes. The announced size is the size delivered.",
     ["inputs"], "all polygons with integer sides, intervals, lengths, distances and land boundaries",
     "Tests check one polygon per operation; intervals over the start, several parts, holes and lengths that do not divide evenly are not sampled.",
     ["libs/MeshKernel/src/Polygon.cpp", "libs/MeshKernel/src/PolygonalEnclosure.cpp", "libs/MeshKernel/src/Polygons.cpp", "libs/MeshKernel/src/LandBoundary.cpp", API],
     [("Polygon::Refine, LinearRefine, Offset, SnapToLandBoundary", "libs/MeshKernel/src/Polygon.cpp")],
     tspec("polygon operations", "spec/Poly.tla, Plane.tla", "PolyTrace.tla"), tnote("5,000"),
     [("polygons", "rings of points, holes and parts", "libs/MeshKernel/src/Polygons.cpp")])
prop("C21", "Interpolated values come from the right samples",
     "Averaging samples to the nodes, edges or faces of a mesh gives at each of them the average, closest, largest, smallest or smallest absolute value (inverse distance: a value between the extremes) of exactly the samples in its neighbourhood, no value when there are fewer than asked, and for an edge the mean of its nodes; triangulation gives the value of the plane through the three samples of a Delaunay triangle around the place and no value outside all triangles; results come in the order of the entities, at their positions, and nothing is written beyond them.",
     ["inputs"], "all sample sets, locations, averaging methods and rectangular meshes",
     "Tests compare a few values; which samples belong to a neighbourhood, missing values and the order of results vary with mesh and samples.",
     ["libs/MeshKernel/src/AveragingInterpolation.cpp", "libs/MeshKernel/src/AveragingStrategies/AveragingStrategyFactory.cpp", "libs/MeshKernel/src/TriangulationInterpolation.cpp", API],
     [("search polygons around locations, averaging strategies, triangulation of samples", "libs/MeshKernel/src/AveragingInterpolation.cpp")],
     tspec("interpolation", "spec/Value.tla, Plane.tla", "ValueTrace.tla"), tnote("4,000"),
     [("samples", "points with values", "libs/MeshKernel/src/AveragingInterpolation.cpp")])
prop("C22", "Measures of a mesh and its crossings with polygons are those of its geometry",
     "Reported for a 2D mesh: the smoothness of an edge is the ratio of the areas beside it (larger to smaller), its orthogonality lies between zero and one, is zero where the link of the face circumcentres is perpendicular to it (rectangular and acute triangular meshes), and both are missing exactly for edges without two faces; edge lengths are the distances of their nodes; the faces filtered by a range are exactly those all of whose edges have their value in it; the obtuse triangles and the short links between faces are exactly those; the edges and faces crossed by polygons are exactly those crossed, each edge once, with the true segment, position along edge and segment, and side of its nodes. Announced sizes are the delivered sizes.",
     ["inputs"], "all planar meshes, ranges, thresholds and polygons in general position",
     "Tests compare stored arrays of a few meshes; which edges and faces count, numbering, several polygons and re-entering polygons are not sampled.",
     ["libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/Mesh2DIntersections.cpp", API],
     [("GetOrthogonality, GetSmoothness, FilterBasedOnMetric, GetObtuseTrianglesCenters, GetEdgesCrossingSmallFlowEdges; breadth-first search along a polyline", "libs/MeshKernel/src/Mesh2D.cpp")],
     tspec("mesh measures", "spec/Measure.tla, Plane.tla", "MeasureTrace.tla"), tnote("12,000"), MSTATE)
prop("C23", "Repairs and improvements of a mesh change what they name and nothing else",
     "Removing disconnected regions keeps exactly one largest region of faces connected across edges and everything attached to no other face; merging nodes unites exactly the nodes closer than the distance inside the polygon, carries all links over, and leaves neither duplicates nor loops nor other changes; flipping edges of a triangulated mesh keeps nodes, border and covered area, gives positive triangles only, and leaves no inner flip that improves the balance of the nodes; orthogonalisation keeps the connectivity, keeps the nodes outside its polygon, keeps border nodes on the border, stays finite and leaves an orthogonal mesh as it is; deleting small flow edges deletes exactly the edges crossed by short links; joining two meshes along matching or integer-ratio borders gives a conforming mesh without hanging nodes that covers both; Casulli de-refinement of a rectangle covers the same area with fewer faces; snapping moves nodes inside its polygon only, and only onto the land boundary.",
     ["inputs"], "all planar meshes of the kinds named, polygons, distances, thresholds, iterations, numberings",
     "Tests look at a few meshes with fixed numbering, often only at counts or single coordinates; numbering, straight borders, holes, ties and combinations are not sampled.",
     ["libs/MeshKernel/src/RemoveDisconnectedRegions.cpp", "libs/MeshKernel/src/FlipEdges.cpp", "libs/MeshKernel/src/ConnectMeshes.cpp", "libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp", "libs/MeshKernel/src/CasulliDeRefinement.cpp", "libs/MeshKernel/src/Mesh.cpp", API],
     [("region labelling by flood fill", "libs/MeshKernel/src/RemoveDisconnectedRegions.cpp"), ("edge flips by topology functional", "libs/MeshKernel/src/FlipEdges.cpp"), ("conforming connection of hanging nodes", "libs/MeshKernel/src/ConnectMeshes.cpp")],
     tspec("mesh repairs", "spec/Repair.tla, Refine.tla, Measure.tla, Plane.tla", "RepairTrace.tla"), tnote("16,000"), MSTATE)
prop("C24", "Splines, grids from splines, grid measures and global meshes follow definition",
     "Points computed on splines lie on the natural cubic splines through the given points, each given point among them; snapping a spline to a land boundary puts its points on it in their order and leaves the other splines of the list alone; a grid between crossing straight splines has the asked number of steps between each two crossings, nodes at the crossings and straight lines; a grid grown from a straight centre line has even columns of at most the asked width, at right angles to it, up to the ends of the crossing splines, with layers growing at one rate from the asked first height; circular grids have their nodes at the prescribed radii and angles; the three blocks in a triangle lie inside it, pass through all its border points and fill it without folding; smoothness of a grid is the ratio of consecutive steps and curvature the inverse of the bending radius, missing where a neighbour is missing; a mesh of the globe has equally spaced nodes on circles of latitude, mirrored at the equator, linked to their neighbours; converting a mesh to spherical coordinates and back restores every node and link, keeps north and east, and scales distances as the earth does.",
     ["inputs"], "all straight or oblique spline sets, point sets, radii, angles, triangles, sides, grids with missing nodes, numbers of meridians and parallels",
     "Tests compare stored coordinates of one case per algorithm, with one orientation, equal sides or a single spline; lists of several splines, unequal sides, reversed directions and other numbers are not sampled.",
     ["libs/MeshKernel/src/Splines.cpp", "libs/MeshKernel/src/SplineAlgorithms.cpp", CG + "CurvilinearGridFromSplines.cpp", CG + "CurvilinearGridSplineToGrid.cpp", CG + "CurvilinearGridGenerateCircularGrid.cpp", CG + "CurvilinearGridFromPolygon.cpp", CG + "CurvilinearGridSmoothness.cpp", CG + "CurvilinearGridCurvature.cpp", "libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp", "libs/MeshKernel/include/MeshKernel/MeshConversion.hpp", API],
     [("cubic splines, grid generators and measures that read node matrices and write result arrays of the caller", API)],
     tspec("splines, curved grids and globes", "spec/Curve.tla, Plane.tla", "CurveTrace.tla"), tnote("16,000"), GSTATE)
