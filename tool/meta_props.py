T = 'contracts on the real C++ (extracted from clang AST each run), own VC generator, z3+cvc5; bounded stand-in on the real code for the rest'

P('C01', 'Undo/redo history is one faithful linear timeline',
  'For any sequence of recording, undoing, redoing, limiting, clearing and removing by owner, the history undoes exactly the most recent done action and redoes exactly the most recently undone one, reports the owner of that action (or that there was nothing to do), and recording a new action discards what the same owner had undone. The numbers of done and undone actions, in total and per owner, are those of that timeline, and the number of done actions never exceeds the configured limit, the oldest being dropped first. An action made of several parts undoes its parts in reverse order and redoes them in the original order.',
  ['histories', 'inputs'], 'every sequence of history operations, every owner id, every limit, every number of parts', 'Tests replay a few fixed sequences on one stack; the guarantee is over all histories, limits and owners.',
  [K + 'src/UndoActions/UndoActionStack.cpp', K + 'src/UndoActions/UndoAction.cpp', K + 'src/UndoActions/CompoundUndoAction.cpp', K + 'include/MeshKernel/UndoActions/UndoActionStack.hpp'],
  [('two lists, committed and restored', 'UndoActionStack.cpp Add/Undo/Commit/SetMaximumSize/Remove'), ('state machine of one action', 'UndoAction.cpp'), ('parts in order', 'CompoundUndoAction.cpp')])
claim('C01', T, 'proof for all histories: contracts on UndoAction, UndoActionStack and CompoundUndoAction over ghost log; virtual actions assumed not to touch the history object; independent exhaustive small-history reference check on top')

P('C02', 'Undoing an edit of an unstructured mesh restores it exactly; redo repeats it',
  'After any edit of an unstructured 2D mesh (inserting, moving, deleting, connecting or merging nodes and edges, deleting regions, refining, flipping, joining, translating, rotating, converting, snapping, orthogonalising), undoing it gives back every edge and every node attached to an edge with its former coordinates and at its former index, and slots added by the edit are invalid; redoing it then gives exactly the mesh after the edit, any number of times. Sequences of edits can be walked back and forth the same way. Longitudes shifted by 360 degrees and back are restored up to rounding; nodes without any edge may be dropped by mesh administration.',
  ['inputs', 'histories'], 'every mesh, every edit with any arguments, every number of undo/redo repetitions', 'Tests check undo on a few fixed meshes for some operations, mostly by counts.',
  [K + 'src/Mesh.cpp', K + 'src/Mesh2D.cpp', K + 'src/UndoActions', K + 'src/MeshRefinement.cpp', K + 'src/FlipEdges.cpp', K + 'src/CasulliRefinement.cpp', K + 'src/CasulliDeRefinement.cpp', K + 'src/ConnectMeshes.cpp'],
  [('each elementary edit creates an action holding old and new value', 'Mesh.cpp InsertNode/ConnectNodes/ResetNode/ResetEdge/DeleteEdge/DeleteNode'), ('Commit/Restore overloads', 'Mesh.cpp CommitAction/RestoreAction'), ('saved copies', 'NodeTranslationAction.cpp, MeshConversionAction.cpp, FullUnstructuredGridUndo.cpp')])
claim('C02', T, 'proof for the elementary actions and edits (insert, connect, reset, delete edge, translation, conversion) for all meshes; composite operations are a bounded stand-in (random meshes and histories on the real library), labelled bounded in the evidence')

P('C09', 'Bounding boxes enclose exactly the valid points',
  'The bounding box of a list of points or samples (or of a slice of it), of a mesh, of each mesh edge, of a land boundary, a spline or a polygon contains every valid point and each of its four sides touches one: missing points never widen it, and a box of no points is everything while a box of only missing points or of an invalid edge overlaps nothing. A polygon\'s box is up to date after construction, assignment, reset and snapping. Merging gives the smallest box around both, containment and overlap are the exact closed-set relations and overlap is symmetric.',
  ['inputs'], 'every list of finite points, any number and position of missing points, any mesh', 'Tests compute a handful of boxes; searches silently lose results when a box is too small for one particular arrangement.',
  [K + 'include/MeshKernel/BoundingBox.hpp', K + 'src/Mesh2D.cpp', K + 'src/LandBoundary.cpp', K + 'src/Splines.cpp', K + 'src/Polygon.cpp'],
  [('running minimum and maximum over valid points', 'BoundingBox.hpp Reset, Mesh2D.cpp GetBoundingBox'), ('one box per edge', 'Mesh2D.cpp GetEdgesBoundingBoxes'), ('kept with the nodes', 'Polygon.cpp')])
claim('C09', T, 'proof for all finite point lists: contracts on BoundingBox (Reset, constructors, Merge, Contains, Overlaps), Mesh2D::GetBoundingBox/GetEdgesBoundingBoxes, LandBoundary, Splines and Polygon; coordinates assumed finite; definition-based random check on top')

P('C10', 'Parameters are accepted exactly within their documented ranges',
  'A parameter set for grid generation, splines, curvilinear grids, mesh refinement or orthogonalization is accepted exactly when every one of its values lies in its documented range (positive counts and sizes, unit-interval factors, 0/1 flags, refinement type 1 to 3, angle from -90 to 90, non-negative and finite fractions), and is refused with a range error before any work is done otherwise; the operations that take such a set apply the check themselves, and rectangular grid generation and mesh connection do the same for their own arguments. The elementary range checks are exact at both ends of the range. Integer codes for projection and direction are accepted exactly for the existing values and mean that value.',
  ['inputs'], 'every value of every field, in any combination', 'Tests try one value outside a few ranges; off-by-one ends, a forgotten field or an entry point without the check go unnoticed.',
  [K + 'include/MeshKernel/RangeCheck.hpp', K + 'include/MeshKernel/Parameters.hpp', K + 'src/Definitions.cpp', K + 'src/MeshRefinement.cpp', K + 'src/OrthogonalizationAndSmoothing.cpp', K + 'src/CurvilinearGrid/CurvilinearGridRectangular.cpp', K + 'src/ConnectMeshes.cpp'],
  [('one predicate per range shape, negated and thrown', 'RangeCheck.hpp'), ('one check per field', 'Parameters.hpp Check*Parameters'), ('constructors call the check first', 'MeshRefinement.cpp, CurvilinearGridOrthogonalization.cpp, CurvilinearGridFromSplines.cpp')])
claim('C10', T, 'proof for all finite values: exact acceptance of every range check and parameter set, and that the constructors and generators return normally only in range; NaN and infinities by the bounded stand-in')

P('C12', 'Sample averaging and interpolation at mesh locations',
  'Averaging samples around a location returns the value its method defines over exactly the valid samples in the search polygon (the location\'s cell scaled by the relative search size): the mean, the value of the sample closest to the location, the largest, the smallest, the smallest absolute value, or the inverse-distance weighted mean. The mean and the weighted mean are the missing value when there are fewer samples than the required number, the others when there are none. A sample with a missing value never contributes, nor one outside the polygon; only when no sample is near at all, and if asked for, the nearest sample\'s value is taken. Results come one per node, edge or face, in their order; an edge gets the mean of its two nodes or missing if either is missing.',
  ['inputs'], 'every set of samples, every averaging method, every minimum number of samples, every mesh', 'Tests average one fixed sample file with a few settings; negative values, missing samples and larger minimum counts are not sampled.',
  [K + 'src/AveragingInterpolation.cpp', K + 'src/AveragingStrategies', K + 'include/MeshKernel/AveragingInterpolation.hpp'],
  [('one strategy per method', 'AveragingStrategies/*.cpp Calculate'), ('samples in the search polygon only', 'AveragingInterpolation.cpp GetSampleValueFromRTree/ComputeInterpolationResultFromNeighbors'), ('one result per location', 'AveragingInterpolation.cpp Compute, ComputeOnPolygon')])
claim('C12', T, 'proof for all finite samples: contracts on all six strategies against their defining mean/extremum/closest specification (real arithmetic), on the sample filter, and on the loops over locations; r-tree query results and point-in-polygon are abstract in the proof, compared with a direct computation by the bounded stand-in')

P('C13', 'Point lists with separators split into exactly the pieces between them',
  'A list of points in which separators mark the boundaries between polylines, polygons, inner rings or splines is split into exactly the maximal pieces between separators, in order, whatever leading, trailing or repeated separators it has: each polyline of a land boundary, each polygon, its outer ring, each inner ring and each spline consists of the points of its piece, and there is one per piece. Node counts follow from the pieces, and gathering all polygons into one list gives a list that splits into the same polygons again. Converting between geometry lists, point lists, samples, masks and gridded data keeps every entry and the order; a list too short for the requested number of values is refused.',
  ['inputs'], 'every list, with separators at any positions', 'Tests use lists with one or two separators; runs of length one, repeated, leading and trailing separators, several inner rings and later polygons are not sampled.',
  [K + 'src/Operations.cpp', K + 'src/Polygons.cpp', K + 'src/PolygonalEnclosure.cpp', K + 'src/LandBoundary.cpp', K + 'src/Splines.cpp', 'libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp'],
  [('search of runs', 'Operations.cpp FindIndices'), ('outer ring, inner rings', 'PolygonalEnclosure.cpp constructor, Construct*'), ('one enclosure per run', 'Polygons.cpp constructor, GatherAllEnclosureNodes'), ('conversions', 'Utils.hpp Convert*')])
claim('C13', T, 'proof for all lists: contracts on FindIndices, PolygonalEnclosure construction (rings are exactly the pieces), Polygons constructor (one enclosure per run), land-boundary polylines, splines and API list conversions; joining of all polygons and the remaining conversions by the bounded stand-in')

P('C03', 'Undoing an edit of a curvilinear grid restores it exactly; redo repeats it',
  'Undoing any edit of a curvilinear grid (move, delete, insert face or line, line shift, mirror, attraction, refinement, derefinement, smoothing, orthogonalization, snapping, delete interior and exterior) gives exactly the grid of before: as many lines, every node with the same coordinates and validity; redoing it gives exactly the edited grid, any number of times and along any history. An undone edit leaves no trace in later edits. Nodes that belong to no face may be dropped by either; coordinates are finite.',
  ['histories', 'inputs'], 'every grid, with holes, hidden lines of undone insertions, any block or line of it, and every history of edits, undos and redos', 'Tests undo one edit on a rectangular grid; what is left out of the saved part shows only for particular blocks, holes or earlier undone insertions.',
  [K + 'src/CurvilinearGrid/CurvilinearGrid.cpp', K + 'src/CurvilinearGrid/CurvilinearGridBlock.cpp', K + 'src/CurvilinearGrid/UndoActions'],
  [('saved block and its swap', 'CurvilinearGridBlock.cpp CopyFrom/Swap'), ('commit and restore of each action, removal of nodes of no face', 'CurvilinearGrid.cpp RestoreAction/CommitAction/RemoveInvalidNodes'), ('what each edit saves', 'CurvilinearGridLineShift.cpp, CurvilinearGridDeleteInterior.cpp, CurvilinearGridDeleteExterior.cpp, CurvilinearGrid::DeleteNode')])
claim('C03', T, 'proof for the saved block, the undo actions, the removal of nodes of no face, and undo of move, reset, delete node, delete interior, delete exterior, add line, refine and any edit within the saved block, for all grids; that the other algorithms write only inside the block they save is a bounded stand-in (all operations and random histories on the real library)')
P('C06', 'Every node lists exactly its valid edges; look-ups agree with the edges',
  'After a mesh has been administrated, every node lists each valid edge it is an end of exactly once and no other edge, in counter-clockwise order, and the number of edges of a node is the length of its list (up to the documented 16 edges per node). An edge with a missing or invalid end is invalid afterwards, a node without a valid edge is invalid, and every other node and edge is unchanged. The look-ups agree with the edges: the edge between two nodes, the node common to two edges, the neighbours of a node, the end a node is of an edge, the hanging edges and the nodes of a set of edges are those the edges define, and missing exactly if there is none.',
  ['inputs', 'histories'], 'every mesh whose edges refer to its nodes, after any sequence of edits', 'Tests check tables of a few fixed meshes; invalid edges and nodes left by edits, edges with one missing end and unusual numberings are not sampled.',
  [K + 'src/Mesh.cpp', K + 'src/Mesh2D.cpp'],
  [('each valid edge appended to the lists of its ends', 'Mesh.cpp NodeAdministration, SortEdgesInCounterClockWiseOrder, AdministrateNodesEdges'), ('invalidation of the unconnected', 'Mesh.cpp FindConnectedNodes, InvalidateUnConnectedNodes, SetUnConnectedNodesAndEdgesToInvalid'), ('look-ups', 'Mesh.cpp FindEdge, FindEdgeWithLinearSearch, FindCommonNode; Mesh2D.cpp GetConnectingNodes, ComputeNodeNeighbours, GetHangingEdges, NodeMaskFromEdgeMask')])
claim('C06', T, 'proof for all meshes (edges in range, no duplicate, at most 16 per node): contracts on the administration of nodes and edges and on every look-up against a counting specification; counter-clockwise order by the bounded stand-in')

P('C15', 'Faces are closed rings of edges, and face, edge and node tables agree',
  'After a 2D mesh has been administrated, every face is a closed ring of 3 to 6 different nodes in counter-clockwise order in which edge i joins node i and the next one; an edge lists exactly the faces whose rings contain it, at most two and different ones, and a face is listed once. The faces are exactly the rings around the regions with 3 to 6 edges (a ring sharing two of its edges with one other face excepted). Faces given with a mesh keep their rings, and giving more than two faces to an edge is refused. The look-ups agree with the tables: the face across an edge, the face common to two edges, the opposite edge of a quadrilateral, the position of a node or edge in a face and whether an edge or face is on the boundary.',
  ['inputs', 'histories'], 'every 2D mesh, after any sequence of edits', 'Tests check a few face tables of fixed meshes; pentagons and hexagons, concave faces, holes and edited meshes are not sampled.',
  [K + 'src/Mesh2D.cpp', K + 'src/Mesh.cpp'],
  [('walk along the next edge of each node until it closes', 'Mesh2D.cpp FindFaces, FindFacesRecursive'), ('given rings', 'Mesh2D.cpp FindFacesGivenFaceNodesMapping'), ('look-ups', 'Mesh2D.cpp NextFace, FindCommonFace, FindOppositeEdge; Mesh.cpp GetEdgeIndex, GetNodeIndex, GetLocalFaceNodeIndex, IsFaceOnBoundary')])
claim('C15', T, 'proof for all meshes: contracts on FindFacesRecursive (recursion by its own contract), FindFaces, DoAdministration, given faces and the look-ups: all table agreements; which rings become faces (areas, completeness) by the bounded stand-in with independent ring tracing')

P('C07', 'Removing invalid entries keeps exactly the valid nodes and edges, in order',
  'Compacting a mesh keeps exactly the edges whose two ends are valid nodes and exactly the nodes that have such an edge, each once, in their old order and with their old coordinates; every kept edge joins the same two nodes as before under their new numbers, and there is nothing else. The numbers of valid nodes and valid edges and the mappings from compact to original indices are those of the same selection.',
  ['inputs', 'histories'], 'every mesh, with any nodes and edges missing, half-missing, dangling or in any order', 'Tests compact one or two meshes; a wrong renumbering shows only for particular positions of the invalid entries.',
  [K + 'src/Mesh.cpp', K + 'include/MeshKernel/Mesh.hpp'],
  [('mark, renumber, erase', 'Mesh.cpp DeleteInvalidNodesAndEdges'), ('counts and mappings', 'Mesh.cpp GetNumValidNodes/GetNumValidEdges/GetValidNodeMapping/GetValidEdgeMapping')])
claim('C07', T, 'proof for all meshes (edges in range): contracts on DeleteInvalidNodesAndEdges and on the counts and mappings against rank functions; node marking by the contracts proved in C06; direct compaction compared on random meshes on top')

P('C04', 'Every interface call that changes a state is one undo step of that state',
  'Through the C interface every call that succeeds in changing the meshes, grids, network or contacts of a state adds exactly one step to the history, recorded under the id of that state; a query or a refused call adds none. Undoing it, when it is the last step, gives back all parts of that state (2D mesh, 1D mesh, network, contacts, curvilinear grid, projection) as they were before the call, redoing gives them back as after it, and no other state changes. Undo and redo report the id of the state they changed, and the counts per id are those of the recorded steps. (mkernel_mesh2d_insert_edge_from_coordinates may find its edge there already; nodes without an edge may be dropped by administration.)',
  ['histories', 'inputs'], 'every sequence of interface calls, undos and redos over any number of states', 'Tests undo a few calls in one state; a call that is not recorded, recorded for another id or overwrites an object shared with a saved copy shows only in a later undo.',
  [A + 'src/MeshKernel.cpp', A + 'src/MKStateUndoAction.cpp', A + 'include/MeshKernelApi/State.hpp'],
  [('every change paired with meshKernelUndoStack.Add(action, meshKernelId)', 'MeshKernel.cpp, each mkernel_ function'), ('saved state and its swap', 'MKStateUndoAction.cpp')])
claim('C04', T, 'proof over all interface functions that take a state id, in a value abstraction (scalars exact, other values unknown, every kernel call may throw and change what it is given): a successful change is recorded exactly once and under the id of the call, every action handed out by the kernel is recorded, no object shared with a saved state is overwritten in place; contracts on MKStateUndoAction for all states. That the recorded kernel actions restore the mesh is C02/C03; random histories over several states on the real library on top')

P('C05', 'Failures stay inside the interface; a call touches only the state it names',
  'No exception leaves a function of the C interface: whatever happens inside, the call returns, and it returns success only if nothing failed inside, otherwise the exit code of the kind of error, which the error queries then report. A state id that does not exist (never allocated, expunged, negative) is refused by every function that takes one, except the validity query, which answers no, and the two history functions that answer for unknown ids (no history); no call brings an unregistered id into existence or removes or changes another state. A new id is never one in use, expunging removes exactly that state and clearing all of them.',
  ['inputs', 'histories'], 'every interface function, every id, any failure in any kernel call, every history of allocations and removals', 'Tests call some functions with one wrong id; that each of about 200 functions guards its id first and contains every failure is not sampled.',
  [A + 'src/MeshKernel.cpp', A + 'include/MeshKernelApi/MeshKernel.hpp', K + 'include/MeshKernel/Exceptions.hpp'],
  [('look-up of the id before any use, catch of everything', 'MeshKernel.cpp, each mkernel_ function, HandleException'), ('category and code of each error', 'Exceptions.hpp')])
claim('C05', T, 'proof over all interface functions in a value abstraction (scalars exact, other values unknown, every kernel or library call may throw): no exception leaves, failure implies a non-zero exit code, unknown ids refused before use, registry changed only as stated; exception categories and codes by contract. Crashes inside kernel algorithms on odd arguments are outside the abstraction; every function called with unknown ids and odd arguments on the real library on top')

def NAP(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech); NA[id] = reason

NAP('N01', 'Triangulation inside a polygon is Delaunay and stays inside it',
  'Triangulating a polygon or a set of samples gives triangles that cover the polygon, do not overlap and satisfy the empty-circle criterion.',
  ['inputs'], 'every polygon and sample set', 'Tests triangulate a few fixed polygons.', ['extern/triangle', K + 'src/TriangulationInterpolation.cpp'], [('Shewchuk\'s Triangle', 'extern/triangle/triangle.c')],
  'the guarantee is that of the external C library Triangle (16 000 lines, exact floating-point predicates, pointer-tagged edges); no contract over real arithmetic expresses its adaptive predicates and the installed verifiers cannot take it')
NAP('N02', 'Orthogonalization and smoothing do not worsen the mesh',
  'Orthogonalizing or smoothing a mesh does not increase its non-orthogonality measure and keeps every face from folding over.',
  ['inputs'], 'every mesh', 'Tests compare coordinates for fixed meshes.', [K + 'src/OrthogonalizationAndSmoothing.cpp', K + 'src/Orthogonalizer.cpp', K + 'src/Smoother.cpp'], [('relaxation iterations', 'OrthogonalizationAndSmoothing.cpp')],
  'the algorithms are heuristic relaxations that do not guarantee it (counterexamples exist), so there is no true postcondition to prove; only their undo (C02, C03) and parameters (C10) are decided')
NAP('N03', 'Projection conversion round trip',
  'Converting a mesh from spherical to Cartesian coordinates and back returns the coordinates up to the accuracy of the projection.',
  ['inputs'], 'every coordinate and UTM zone', 'Tests convert a few points.', [K + 'include/MeshKernel/ProjectionConversions.hpp'], [('boost geometry projections', 'ProjectionConversions.hpp')],
  'the transformation is boost.geometry\'s transcendental series in floating point; the solvers have no theory for it and the rounding error is the whole statement')
NAP('N04', 'Nearest-point and radius queries of the R-tree are exact',
  'A nearest-point or radius query returns exactly the closest indexed point or the indexed points within the radius.',
  ['inputs'], 'every point set and query', 'Tests query fixed point sets.', [K + 'include/MeshKernel/Utilities/RTree.hpp'], [('boost r-tree', 'Utilities/RTree.hpp')],
  'the search is boost.geometry\'s r-tree (templates over a packed tree with visitors); its code is a dependency outside the verifier\'s subset and its contract is assumed wherever it is used')
