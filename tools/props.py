REAL = 'double arithmetic is treated as exact real arithmetic (rounding, overflow and NaN are not modelled)'
prop('C01', 'Axis-aligned boxes: set algebra, containment, distance and witnesses',
     'The operations of the axis-aligned bounding box implement exact set algebra: overlap and containment tests are true exactly when the closed boxes share a point or one includes the other, merging gives the smallest box containing both operands, and the overlap box is their intersection. '
     'The distance between two boxes is the minimum over pairs of points, zero exactly when they overlap, and the two witness points returned lie in their boxes at that distance. '
     'Expanding, translating and the extents, centre, radius, volume and size report what the box geometrically is.',
     ['inputs'], 'for all boxes with finite real bounds, all points, all vectors and non-negative margins',
     'The tests sample a few boxes; the algebraic laws quantify over all pairs of boxes and all points, including nested, touching and degenerate ones.',
     ['include/fcl/math/bv/AABB.h', 'include/fcl/math/bv/AABB-inl.h'],
     ['AABB::overlap/contain/equal comparisons per axis', 'AABB::distance with and without witnesses', 'operator+=, operator+, expand'],
     'return values and out parameters of the AABB member functions', REAL)
prop('C02', 'k-DOPs: overlap, membership, merging and translation are slab-exact',
     'For the 16-, 18- and 24-direction discrete oriented polytopes, overlap is reported exactly when no slab separates the two, and membership exactly when the point is within every slab. '
     'Merging two polytopes, or extending one by a point, yields the smallest polytope containing all points of the operands. '
     'Construction from one or two points contains them and their segment, translation moves exactly the contained points, and extents and centre agree with the axis slabs.',
     ['inputs'], 'for all polytopes with 16, 18 and 24 directions, all points and all translations',
     'Each direction is a separate formula in the code; the tests exercise polytopes only inside hierarchies on a few meshes, where a wrong slab merely costs pruning or loses a contact in rare orientations.',
     ['include/fcl/math/bv/kDOP.h', 'include/fcl/math/bv/kDOP-inl.h'],
     ['getDistances<N>', 'KDOP::overlap, inside, operator+=', 'translate'],
     'return values of the KDOP member functions and the slab bounds dist(i)', REAL)
prop('C03', 'Oriented boxes: overlap is sound, merging near boxes contains both',
     'Two oriented boxes that share a point are never reported disjoint, in any relative pose and through every overload; boxes separated along any face normal or edge-pair direction by more than the numerical tolerance are reported disjoint. '
     'Point membership and corner computation agree with the box, and translating moves it. '
     'Merging two oriented boxes, or extending one by a point, whose centres are no further apart than twice the sum of their largest half-extents, yields an oriented box with orthonormal axes containing all corners of both.',
     ['inputs'], 'for all rotations, centres and non-negative half-extents',
     'Separating-axis tests have 15 formulas each of which decides only for special relative poses; the hierarchy tests sample a few poses of a few meshes.',
     ['include/fcl/math/bv/OBB.h', 'include/fcl/math/bv/OBB-inl.h'],
     ['obbDisjoint (both overloads)', 'OBB::overlap/contain/operator+', 'merge_smalldist'],
     'return values of the OBB functions',
     REAL + '; rotations are exact; merging of far boxes (eigenvector fit) is outside the statement; the Eigen quaternion conversions are used through contracts proved in the same check')

prop('C05', 'Bounding volumes of placed shapes contain the placed shape',
     'For a primitive shape in any pose, the bounding volume that computeBV reports contains every point of the placed shape: axis-aligned and oriented boxes for boxes, spheres, ellipsoids, capsules, cones, cylinders, triangles (axis-aligned), planes and half-spaces; the 16-, 18- and 24-direction polytopes for planes and half-spaces. '
     'The local axis-aligned box of a shape contains the shape, its reported centre is the middle of that box, and the reported radius bounds the distance of every shape point from the centre. '
     'Placing a plane or half-space gives exactly the image set with a unit normal; oriented boxes have orthonormal axes.',
     ['inputs'], 'for all non-negative shape dimensions, all unit normals and offsets, all rotations and translations, all points of the shape (with coordinates below 1e300 for unbounded shapes)',
     'Every branch (aligned and diagonal normals, each axis formula) is a separate formula; a bound that is too small only loses contacts in particular poses, which sampled collisions rarely reach.',
     ['include/fcl/geometry/shape/utility-inl.h', 'include/fcl/geometry/shape/box-inl.h', 'include/fcl/geometry/shape/halfspace-inl.h', 'include/fcl/math/geometry-inl.h'],
     ['ComputeBVImpl<S, BV, Shape>::run', 'Shape::computeLocalAABB', 'transform(Halfspace/Plane)', 'generateCoordinateSystem'],
     'the bounding volume out-parameter and the aabb_local, aabb_center, aabb_radius fields', REAL + '; numeric_limits::max() is the rational it denotes')
prop('C08', 'Sphere queries against sphere, box, cylinder and capsule are exact',
     'The closed-form queries of a sphere against a sphere, a box, a cylinder or a capsule report an intersection exactly when the two solids come within touching distance (up to the documented numerical tolerance for boxes and cylinders when the sphere centre is inside), and otherwise the exact distance between the surfaces. '
     'When separated, the two reported points lie on the two surfaces at exactly that distance; when intersecting, one contact is reported whose unit normal, position and depth are those of the nearest feature. '
     'Posing both shapes by the same rotation and translation moves the answer with them, and asking for contacts or points never changes the answer.',
     ['inputs'], 'for all radii and dimensions (positive), all poses of both shapes',
     'Each region (face, edge, rim, cap, inside) has its own formula; tests sample a few configurations per region, in special poses.',
     ['include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_sphere-inl.h', 'include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_box-inl.h',
      'include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_cylinder-inl.h', 'include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h'],
     ['sphereSphereIntersect/Distance', 'sphereBoxIntersect/Distance and nearestPointInBox', 'sphereCylinderIntersect/Distance and nearestPointInCylinder', 'sphereCapsuleIntersect/Distance and lineSegmentPointClosestToPoint'],
     'return value, contact list, distance and witness points of the primitive functions', REAL + '; the nearest-point helpers are used through contracts proved in the same check')
prop('C16', 'Nearest points of segments and capsules, and sphere to triangle distance',
     'The nearest point of a segment to a point (as used for sphere-triangle contacts and as projection on a line segment, with convex weights) and the nearest pair of points of two segments lie on the segments at the parameters reported, and no other point or pair is nearer. '
     'The distance between two capsules is that of their centre lines less both radii, and the witness points lie on the two surfaces at the reported signed distance; each of the three may be asked for on its own. '
     'The distance from a sphere to a non-degenerate triangle, when no nearest points are asked for, is that of the nearest point of the triangle less the radius, and contact is reported only if that is within the radius.',
     ['inputs'], 'for all points, radii and lengths, and all poses; segments that are exactly parallel or degenerate, or else not within the code\'s tolerance of it; triangles of non-zero area',
     'The nearest feature falls in one of seven regions of the triangle or nine of the segment pair, each with its own clamping formula; tests sample few of them.',
     ['include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h', 'include/fcl/narrowphase/detail/primitive_shape_algorithm/capsule_capsule-inl.h', 'include/fcl/math/detail/project-inl.h'],
     ['segmentSqrDistance', 'Project::projectLine/projectLineOrigin', 'closestPtSegmentSegment, capsuleCapsuleDistance', 'sphereTriangleDistance (distance only)'],
     'return values, distances, parameters and witness points of these functions', REAL + '; capsuleCapsuleDistance uses closestPtSegmentSegment through the contract proved in the same check; witness points of capsules whose centre lines touch: only their distance from the centre lines')

prop('C09', 'Shapes against half-spaces and planes',
     'A sphere, box, capsule, cylinder, cone or ellipsoid is reported as intersecting a half-space exactly when its deepest point is in the half-space, and as intersecting a plane exactly when its points are not all strictly on one side (cone and triangle: when some are strictly on either side; whether mere touching counts is left open); asking for contacts does not change the answer. '
     'The one contact reported has the depth of the deepest point (plane: the shorter of the two ways out) and a normal perpendicular to the boundary pointing from the shape into the half-space (plane: against the shorter way out). For a half-space its position is half the depth above a deepest point of the shape (ellipsoid: on the ray from the centre to it, half the depth below the surface); for a plane it is on the plane, and for sphere, capsule and ellipsoid also in the shape. '
     'All of this moves with the poses of the two objects. The same holds for a triangle against a half-space or plane. '
     'Two half-spaces, a plane and a half-space, and two planes intersect unless they are parallel and disjoint; the depth of parallel ones and the line common to the boundaries of the others are right.',
     ['inputs'], 'for all shapes, all poses and all unit normals and offsets, except orientations closer than 1e-7 to (but not exactly at) an aligned one, where the code rounds to the aligned case, and half-space/plane pairs that are nearly but not exactly parallel',
     'The deepest point is computed by separate formulas for aligned, perpendicular and general orientations and for either sign; tests sample a few orientations, and ties and near-zero signs are where the mistakes were.',
     ['include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h', 'include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h'],
     ['{sphere,box,capsule,cylinder,cone,ellipsoid}HalfspaceIntersect', '{sphere,box,capsule,cylinder,cone,ellipsoid}PlaneIntersect', 'halfspaceTriangleIntersect, planeTriangleIntersect', 'halfspaceIntersect, planeHalfspaceIntersect, halfspacePlaneIntersect, planeIntersect'],
     'return values and contacts of these functions', REAL + '; transform(Halfspace/Plane, pose) is used through its contract (proved by C05); convex polytopes are not covered')

prop('C07', 'Support functions of the convex algorithms',
     'The support functions that GJK and EPA are built on (detail::getSupport and MinkowskiDiff::support of the own implementation; GJKInitializer<...>::getSupportFunction and triGetSupportFunction for libccd) return, for every direction, a point of the shape that reaches as far in that direction as any point of the shape, for boxes, spheres, ellipsoids, capsules, cones, cylinders and triangles; the libccd objects carry the dimensions and the pose (position, rotation quaternion and its inverse) of the shape they are created from, and their centre is the position of the shape.',
     ['inputs'], 'for all shapes with positive dimensions, all poses and all non-zero directions (unit ones where the code asks for them: own implementation, sphere and capsule); for the libccd cylinder, directions within 1e-15 of its axis but not on it are left out',
     'Every GJK/EPA answer rests on them, a slightly wrong support point only shows up as a slightly wrong distance, and each shape has its own special cases by sign and alignment of the direction.',
     ['include/fcl/narrowphase/detail/convexity_based_algorithm/minkowski_diff-inl.h', 'include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h'],
     ['getSupport, MinkowskiDiff::support*', 'supportBox/Cap/Cyl/Cone/Sphere/Ellipsoid/Triangle, shapeToGJK and the *ToGJK functions, centerShape, triCreateGJKObject'],
     'points returned by the support functions; contents of the libccd objects', REAL + '; in the libccd support functions ccdQuatRotVec is used through its contract (a rotation), which C07_ccd_rotate proves of the installed header; convex polytopes are not covered')

prop('C10', 'Exact triangle-triangle test of mesh collision and its contacts',
     'The triangle-triangle test behind mesh collision reports two triangles as disjoint exactly when one of the seventeen deciding directions (the normals, the cross products of the edges, the in-plane normals of the edges) strictly separates them, and so never for triangles with a common point; posing the second triangle by a rotation and translation tests the moved triangle, and asking for contacts does not change the answer. '
     'For intersecting triangles of non-zero area the reported depth is the smaller of the depths to which either triangle reaches behind the plane of the other, the normal is the unit normal of that plane directed from the first triangle to the second, and the one or two contacts are corners that reach that depth within 1e-6.',
     ['inputs'], 'for all corner positions and poses (contacts: triangles of non-zero area, coordinates such that depths are below 1e300)',
     'Each direction is a separate formula that decides only for particular relative poses; the tests collide a few meshes, where neighbouring triangles mask a wrong answer.',
     ['include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h'],
     ['Intersect::intersect_Triangle (three overloads)', 'Intersect::project6', 'Intersect::buildTrianglePlane', 'Intersect::computeDeepestPoints'],
     'return value, contact points, number, depth and normal', REAL + '; the separating axis theorem itself (no direction separates, hence a common point) is not proved; computeDeepestPoints is used through its contract (proved in the same check)')

prop('C19', 'Hierarchy traversal tests every pair that is not ruled out',
     'Traversing two bounding volume hierarchies (or one against itself) tests every pair of leaf primitives at most once, and exactly once unless a bounding volume test of a pair of nodes above them excludes it or the search may stop; a leaf pair whose bounding volumes are excluded is not tested, and without a front list nothing is tested after the search may stop. '
     'The distance traversals, recursive or with a queue, test every leaf pair unless the search was allowed to stop for pairs at least as near. '
     'With a front list every leaf pair ends under exactly one entry, and continuing from a front list tests the pairs under it by the same rule. '
     'The oriented traversal passes on the relative pose of the two boxes it visits. Hierarchy nodes report leaves and children consistently, never descend below a leaf, and exclude exactly the pairs whose bounding volumes do not overlap.',
     ['inputs', 'history'], 'for all trees, all answers of the bounding volume tests, all descent orders and all points at which the search may stop (front lists of at most two entries and queue traversals of trees with two leaves: bounded)',
     'A lost or doubled pair depends on the tree shapes, the descent order and when the search stops; tests with meshes compare only whether anything collides.',
     ['include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h', 'include/fcl/narrowphase/detail/traversal/collision_node-inl.h', 'include/fcl/narrowphase/detail/traversal/collision/bvh_collision_traversal_node-inl.h', 'include/fcl/narrowphase/detail/traversal/distance/bvh_distance_traversal_node-inl.h', 'src/geometry/bvh/BV_node_base.cpp'],
     ['collisionRecurse, selfCollisionRecurse, distanceRecurse: recursive contract over a ghost pair', 'distanceQueueRecurse, propagateBVHFrontListCollisionRecurse: bounded', 'collide, selfCollide, distance', 'BVHCollisionTraversalNode, BVHDistanceTraversalNode'],
     'calls of leafTesting, BVTesting and canStop made by the traversal; entries of the front list', 'partial correctness: trees are finite; recursive calls are used through the contract that is proved of the function itself; propagation from a front list and the queue traversal are bounded')

prop('C13', 'Results name what the narrow phase found',
     'For every pair of primitives that a collision traversal reaches, the narrow phase is asked about exactly these primitives in their poses, and the result gains contacts exactly if it reports an intersection and both objects are occupied: one without details, or the reported contacts (for shapes the deepest first choice) as far as room remains under num_max_contacts, naming the objects in order and the primitives, with position and normal in world coordinates and the normal from the first to the second object; contacts already there are kept. '
     'A cost source is recorded exactly if costs are asked for, the pair intersects and neither object is free (or both are occupied): the overlap of the bounding boxes of the primitives with the product of the densities, for meshes with meshes and shapes alike. '
     'A distance traversal leaves in the result the least of the distances seen so far, with the objects, primitives and world-coordinate nearest points of the pair it belongs to, also when the result of an earlier query is continued. '
     'A search may stop only when enough contacts were found and no costs are asked for, or for pairs no nearer than the best.',
     ['inputs', 'history'], 'for all triangles, poses, densities, requests, earlier results and answers of the narrow phase; meshes of two triangles, up to three contacts per shape pair (bounded)',
     'Order of arguments, frames and indices in a result are only wrong for particular pairs, and tests look at whether objects collide and how far apart they are.',
     ['include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h', 'include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h', 'include/fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node-inl.h', 'include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h',
      'include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h', 'include/fcl/narrowphase/detail/traversal/distance/mesh_shape_distance_traversal_node-inl.h', 'include/fcl/narrowphase/detail/traversal/distance/shape_mesh_distance_traversal_node-inl.h', 'include/fcl/narrowphase/detail/traversal/distance/shape_distance_traversal_node-inl.h',
      'include/fcl/narrowphase/distance_result-inl.h', 'include/fcl/narrowphase/collision_result-inl.h', 'include/fcl/narrowphase/collision_request-inl.h'],
     ['leafTesting, initialize, preprocess, postprocess, canStop of the mesh, shape and mesh-shape nodes', 'DistanceResult::update, clear; CollisionResult::addContact, addCostSource; isSatisfied'],
     'contents of CollisionResult and DistanceResult after the leaf tests; arguments given to the narrow phase', REAL + '; the narrow phase is arbitrary (mock solver, contract stubs for the triangle tests, proved by C10, C16, C08); AABB::overlap through its contract (C01); harnesses with a mesh use two triangles and are counted as bounded')

prop('C18', 'Queries reach the narrow phase with the right objects, poses and settings',
     'collide() and distance() of two objects or of two geometries with poses ask the narrow phase solver about exactly these two shapes as what they are, in the order given and where they are, for every pair of box, sphere, ellipsoid, capsule, cone, cylinder, convex, plane and half-space: for contacts, signed or unsigned distance exactly as the request says, starting from the cached guess exactly if the request says so, and handing it back. '
     'A mesh (of any kind of bounding volume) and a shape, in either order, and two meshes of the same kind are tested triangle by triangle where they are in the world. The results name the objects that were given, never temporaries; contacts found before are kept; the number of contacts, or the distance found, is returned. '
     'With no contacts wanted none are looked for, and a pair that is not supported leaves the result alone.',
     ['inputs'], 'for all poses, requests and answers of the narrow phase, and all pairs of kinds of geometry except octrees and isolated triangles (meshes of one triangle: bounded)',
     'The tables have some 390 entries and tests call a few of them; a wrong entry, order or a dangling name shows only for one pair of kinds.',
     ['include/fcl/narrowphase/collision-inl.h', 'include/fcl/narrowphase/distance-inl.h', 'include/fcl/narrowphase/detail/collision_func_matrix-inl.h', 'include/fcl/narrowphase/detail/distance_func_matrix-inl.h'],
     ['collide, distance (objects, geometries, with a solver)', 'CollisionFunctionMatrix, DistanceFunctionMatrix and the functions in them', 'initialize of the mesh, shape and mesh-shape nodes'],
     'questions put to the solver; CollisionResult and DistanceResult', REAL + '; the solver is a mock with arbitrary answers; the traversal is used through its contract (C19), bounding volumes rule out nothing; the rebuilding of a moved mesh copy is assumed; meshes have one triangle (bounded); the overloads that pick a solver by type are not covered')

prop('C21', 'Dynamic tree broad phase reports every pair that may touch',
     'The dynamic AABB tree managers (pointer and array version) hand every pair of registered objects whose boxes overlap to the collision callback, exactly once and with the user data, until the callback asks to stop, and no pair whose boxes in the tree are disjoint; this holds for one object against the manager, for two managers and within one manager, and nothing is called after the callback asked to stop. '
     'The distance queries hand over every pair, at most once, unless its boxes are no nearer than the distance found so far, which starts from the largest number and is handed on from call to call. '
     'Registering, updating (one, some or all), unregistering and clearing leave a tree with one leaf for each registered object, holding its current box, and getObjects, size and empty agree with it.',
     ['inputs', 'history'], 'for all trees, boxes, callbacks and points at which the callback asks to stop (registration history: bounded; geometries other than octrees that are not treated as geometry)',
     'A pair is lost only for particular tree shapes and descent orders; tests compare managers on a few random scenes.',
     ['include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h', 'include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h'],
     ['collisionRecurse, selfCollisionRecurse, distanceRecurse, selfDistanceRecurse of both managers: recursive contract over a ghost pair of objects', 'collide, distance (object, manager, self)', 'registerObject(s), update, unregisterObject, clear, getObjects: bounded'],
     'calls of the callback, and leaves of the tree', 'partial correctness: trees are finite; recursive calls through the contract proved of the function itself; AABB::distance, contain and equal through their contracts (C01; equal boxes taken as exactly equal); the tree given to a query is valid (C22); registration history is bounded')

prop('C22', 'Operations on the broad phase hierarchies keep them valid',
     'After inserting, removing, updating (with any lookahead) and re-inserting leaves, building the tree from a list of leaves (all four ways), balancing it (bottom-up, top-down by either rule, incrementally) and refitting, the hierarchy trees of the broad phase (pointer and array version) are valid: each object is in exactly one leaf, identified by the handle the insertion returned and with a volume that encloses the object, volumes of nodes enclose those of their children, links to parents and children agree, size, empty, height and depth are right, and no freed node is touched. '
     'Refitting makes the volume of a node the smallest one over its children, enclosing all leaves below. Morton codes interleave the bits of the cell numbers.',
     ['inputs', 'history'], 'for all boxes, tree shapes of up to four leaves (refitting: of any size), all sizes, codes and comparisons steering the construction (bounded; with random histories of up to 24 leaves)',
     'The operations differ by shape of the tree, position of the leaf and whether volumes shrink or grow on the way up; broad phase tests do not look at the tree.',
     ['include/fcl/broadphase/detail/hierarchy_tree-inl.h', 'include/fcl/broadphase/detail/hierarchy_tree_array-inl.h', 'include/fcl/broadphase/detail/morton-inl.h', 'src/broadphase/detail/morton.cpp'],
     ['insert, remove, update, balanceBottomup/Topdown/Incremental, init_0..3, refit, getMaxHeight, getMaxDepth', 'morton_code, morton_code60'],
     'the nodes of the tree', REAL + '; all but refitting and Morton codes is bounded (trees of up to three or four leaves); AABB::size, equal and the Morton functor are arbitrary (they only steer the shape)')
prop('C23', 'The other broad phase managers report what testing all pairs of boxes reports',
     'The naive, sort-and-sweep (SSaP), sweep-and-prune (SaP), interval tree and spatial hash managers, after any history of registering (one by one or together), unregistering, moving or resizing objects followed by an update, and clearing: contain exactly the objects registered (size, empty, getObjects); hand to the collision callback every pair asked for (within the manager, with one more object, with another manager of the same kind) whose boxes overlap or touch, once, and no pair of an object with itself; '
     'and hand to the distance callback every pair asked for unless its boxes are no nearer than the distance found. Queries end, the distance found so far and the caller\'s data are handed on, and nothing is tested after the callback asked to stop.',
     ['inputs', 'history'], 'for all boxes, including flat and touching ones, of up to two or three objects (bounded; with random histories of up to some 160 objects); the one query object is not registered',
     'Which pair is lost depends on the order of end points along the axes, ties included, and on the history of the lists; broad phase tests count collisions in random scenes.',
     ['include/fcl/broadphase/broadphase_bruteforce-inl.h', 'include/fcl/broadphase/broadphase_SSaP-inl.h', 'include/fcl/broadphase/broadphase_SaP-inl.h', 'include/fcl/broadphase/broadphase_interval_tree-inl.h', 'include/fcl/broadphase/detail/interval_tree-inl.h', 'include/fcl/broadphase/broadphase_spatialhash-inl.h', 'include/fcl/broadphase/detail/spatial_hash-inl.h', 'include/fcl/broadphase/detail/simple_hash_table-inl.h'],
     ['registerObject(s), unregisterObject, update, clear, setup, getObjects', 'collide and distance of the managers and their collide_, distance_, checkColl, checkDis helpers'],
     'calls of the callback and contents of the managers', REAL + '; all bounded: histories of one operation on up to two objects; SaP and interval tree along one axis at a time; the spatial hash manager over any table that finds at least the objects overlapping the cells asked for (the real table natively); AABB::distance by contract (at least the gap along each axis)', level='other')
