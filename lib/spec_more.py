SE, SQ, LI = "src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp", "src/geometry/LineIntersection.cpp"
OR = "runtime monitor on the real geometry code: "

p("G01", "Planar C-obstacle boundaries touch the obstacle exactly",
  "When the robot is placed so that its base lies on a boundary point the library computes for an obstacle and a body, that body touches the obstacle without overlapping it; for the arena, it touches from inside. The boundary goes once around and is sampled as densely as its resolution promises.",
  I, "all superellipses, elliptic bodies placed anywhere on the robot, base poses and resolutions", "A test compares one boundary size; touching is a statement about every point and shape.",
  [SE, "src/datastructure/MultiBodyTree2D.cpp"], [("closed-form Minkowski sum", "SuperEllipse::getMinkSum2D"), ("offset of links from the base", "MultiBodyTree2D::minkSum")],
  ["MultiBodyTree2D::minkSum"], tech=OR + "support-function contact oracle at every boundary point")
p("G02", "Spatial C-obstacle boundaries touch the obstacle exactly",
  "When the robot is placed so that its base lies on a boundary point the library computes for an obstacle and a body, that body touches the obstacle without overlapping it; for the arena, it touches from inside. The boundary reaches as far in every direction as its resolution promises, wherever the robot happened to be before.",
  I, "all superquadrics, ellipsoidal bodies placed anywhere on the robot, base poses and resolutions", "A test compares one boundary size; touching is a statement about every point and shape.",
  [SQ, "src/datastructure/MultiBodyTree3D.cpp"], [("closed-form Minkowski sum", "SuperQuadrics::getMinkSum3D"), ("offset of links from the base", "MultiBodyTree3D::minkSum")],
  ["MultiBodyTree3D::minkSum"], tech=OR + "support-function contact oracle at boundary points")
p("G03", "Sampled surface points lie on the surface, all around it",
  "Every sampled point of a superellipse or superquadric satisfies its implicit equation in the pose the object has, the samples go once around, and they reach as far as evenly spaced parameters do, also after the object was changed through its setters.",
  I, "all axes, exponents in (0,2), poses and resolutions", "Tests check one object's point count.",
  [SE, SQ, "src/util/Exponential.cpp"], [("parametric surface", "getOriginShape"), ("signed power", "exponentialFunction")],
  ["getOriginShape"], tech=OR + "implicit-function oracle at every sample")
p("G04", "Enclosing ellipses and ellipsoids enclose, and no larger than needed",
  "The enclosing ellipse or ellipsoid of two concentric ones contains both and has the smallest volume possible; the one computed for a turning body contains the body at every step of the turn.",
  I, "all pairs of axes, orientations, turn angles and step counts", "Tests compare one configuration with stored numbers.",
  ["src/geometry/TightFitEllipsoid.cpp"], [("simultaneous diagonalisation", "getMVCE2D, getMVCE3D"), ("accumulation along a turn", "getTFE2D, getTFE3D")],
  ["getMVCE2D/3D, getTFE2D/3D results"], tech=OR + "support-function inclusion and eigenvalue optimality oracle")
p("G05", "Lines and segments meet polygons exactly where they should",
  "A horizontal line's reported crossings with a polygon span exactly the part of the line the polygon covers; a segment passing from one side of a polygon boundary to the other is reported as crossing, also through vertices, and a segment away from it is not.",
  I, "all closed boundaries, repeated and collinear points included, all lines and segments", "Tests use one square.",
  [LI], [("edge by edge intersection", "intersectHorizontalLinePolygon2D, isIntersectSegPolygon2D")],
  ["return values"], tech=OR + "orientation-predicate oracle")
p("G06", "Lines meet meshes exactly where they should",
  "Every point reported for a line and a mesh lies on both, every triangle properly crossed by the line is reported, and a line through the inside of a closed mesh leaves it on both sides; the specialised test for vertical lines agrees with the general one.",
  I, "all triangulated convex surfaces and lines", "Tests use one triangle and one mesh.",
  [LI, "src/geometry/MeshGenerator.cpp"], [("line against triangle", "intersectLineTriangle3D"), ("pre-filters", "intersectLineMesh3D, intersectVerticalLineMesh3D")],
  ["return values"], tech=OR + "independent line-triangle oracle")
p("G07", "Surface meshes are closed and lie on the surface",
  "The triangles generated for a sampled surface use only existing points of that surface, keep every sample, and cover it without holes when seen from its centre.",
  I, "all superquadrics and resolutions", "Tests check the number of faces only.",
  ["src/geometry/MeshGenerator.cpp"], [("grid triangulation", "getMeshFromParamSurface"), ("collision-model mesh", "getMeshFromSQ, getBoundary3D")],
  ["mesh vertices and faces"], tech=OR + "implicit-function and ray-casting oracle")
p("G08", "A point lies in a local C-space exactly when it lies in one of its cells",
  "A configuration offset is reported inside a polyhedral local C-space, given by the inverse vertex matrices of its simplices, exactly when it lies in at least one simplex; the description is left as it was.",
  I, "all collections of simplices and points not on their faces", "No test covers it.",
  ["src/geometry/PointInPoly.cpp"], [("convex combination per simplex", "isPtInPoly")],
  ["return value"], tech=OR + "signed-volume oracle")
p("C01", "Algebraic separation tests tell overlapping from separated",
  "Two ellipses or ellipsoids are reported separated exactly when they do not overlap, in either order of the arguments.",
  I, "all pairs not within one percent of touching", "Tests use a handful of pairs.",
  ["src/util/EllipsoidSeparation.cpp"], [("roots of the characteristic polynomial", "isEllipseSeparated, isEllipsoidSeparated, getRootsPolynomial")],
  ["return values"], tech=OR + "support-function separation oracle")
p("C02", "Explicit collision detection agrees with the shapes",
  "The explicit collision test never reports a collision between bodies and obstacles that are apart, and never misses an overlap deeper than the resolution of the obstacle's collision model.",
  I, "all ellipse/superellipse and ellipsoid/superquadric pairs", "Tests use a handful of pairs.",
  ["src/util/EllipsoidSQCollisionFCL.cpp", "include/hrm/util/EllipsoidSQCollisionFCL.h"], [("collision models", "setCollisionObjectFromSQ"), ("pose update and query", "isCollision")],
  ["return values"], tech=OR + "support-function overlap oracle")
p("N01", "Interpolated poses are evenly spaced along the shortest motion",
  "Interpolating between two poses gives one more pose than steps, starting and ending at the given poses, with positions and joints linear and orientations turning evenly the shorter way around, all finite.",
  I, "all pose pairs and step counts, including equal, opposite-sign and half-turn orientations", "Tests print the results or check a single case.",
  ["src/util/InterpolateSE3.cpp"], [("linear and spherical interpolation", "interpolateCompoundSE3Rn, interpolateSlerp, interpolateAngleAxis")],
  ["returned poses"], tech=OR + "geodesic oracle at every step")
p("F01", "Planar free segments are free and complete",
  "On every sweep line of a planar C-slice, every point of a free segment keeps the robot out of the obstacles (up to boundary resolution), inside the arena and within the limits; segments are ordered and disjoint; and no clearly free point is withheld.",
  I, "all arenas, obstacles, multi-body robots, headings, limits and line counts", "Tests compare one scene with stored segments.",
  ["src/datastructure/FreeSpace2D.cpp", "include/hrm/datastructure/FreeSpace-inl.h", "src/datastructure/Interval.cpp"],
  [("boundary intersections per line", "FreeSpace2D::computeIntersectionInterval"), ("complement of the union", "computeSweepLineFreeSegment")],
  ["getFreeSegment"], tech="runtime monitor on real C-space constructions: points in and out of the reported segments are judged by an independent collision oracle")
p("F02", "Spatial free segments are free and complete",
  "On every sweep line of a spatial C-slice, every point of a free segment keeps the robot out of the obstacles (up to mesh resolution), inside the arena and within the limits; segments are ordered and disjoint; and no clearly free point is withheld.",
  I, "all arenas, obstacles, multi-body robots, orientations, limits and line counts", "Tests compare one scene with stored segments.",
  ["src/datastructure/FreeSpace3D.cpp", "include/hrm/datastructure/FreeSpace-inl.h", "src/datastructure/Interval.cpp"],
  [("mesh intersections per line", "FreeSpace3D::computeIntersectionInterval"), ("complement of the union", "computeSweepLineFreeSegment")],
  ["getFreeSegment"], tech="runtime monitor on real C-space constructions: points in and out of the reported segments are judged by an independent collision oracle")
p("F03", "Interval unions, intersections and complements are set-exact",
  "A point belongs to the computed union, intersection or complement of interval lists exactly when it belongs to that set; results are ordered and disjoint and the inputs are left as they were.",
  I, "all finite lists of closed intervals, degenerate and touching ones included; complements of unions", "Tests use three fixed lists.",
  ["src/datastructure/Interval.cpp"], [("merge of sorted intervals", "Interval::unions, intersects, complements")],
  ["return values"], tech=OR + "membership oracle on probe points")
p("K01", "Moving a robot moves every body rigidly, whatever came before",
  "After any sequence of motions, also of a robot that gained bodies or was copied meanwhile, every body is where its last pose (and joint values) and its place on the robot put it, with its shape unchanged.",
  ["inputs", "histories"], "all multi-body robots, rigid and with joints, and sequences of poses and of added bodies", "Tests move a robot once.",
  ["src/datastructure/MultiBodyTree2D.cpp", "src/datastructure/MultiBodyTree3D.cpp"], [("transform of base and links", "robotTF, setRobotTF")],
  ["getBase, getLinks, getBodyShapes"], tech=OR + "rigid-transform oracle after random motion histories")
p("K02", "URDF kinematics places every body where its joints put it",
  "For every robot description and joint values, each body's frame is the product of its chain's joint transforms, and moving a robot tree to a base pose and joint values places every body there, regardless of how it was moved before and of whether the description is given as a file or already parsed.",
  I, "all joint trees (revolute, continuous, prismatic, fixed; any axis and origin), joint values, base poses and histories of moves", "Tests compare one robot at one joint setting.",
  ["src/util/ParseURDF.cpp", "src/datastructure/MultiBodyTree3D.cpp", "src/kdl_parser/src/kdl_parser.cpp"],
  [("joint and link conversion", "kdl_parser"), ("forward kinematics", "ParseURDF::getTransform"), ("placement of bodies", "MultiBodyTree3D::robotTF with joints")],
  ["ParseURDF::getTransform, MultiBodyTree3D::getBodyShapes"], tech="runtime monitor on the real kinematics: an independent forward-kinematics oracle after every move")
p("P13", "Articulated roadmaps are valid with every body placed by its joints",
  "In every roadmap for an articulated robot, each configuration and each edge (translations, and each interpolation step between C-slices) keeps every body, placed by the kinematics at the joint values, out of every obstacle up to mesh resolution. The first C-slice has the start's orientation and joints, the second the goal's, and every further one fresh random ones within the joint limits.",
  I + ["histories"], "all scenes, articulated robots, time limits and numbers of C-slices", "The one test plans one scene and looks at whether something was found.",
  ["src/planners/ProbHRM3D.cpp", H3, "src/util/InterpolateSE3.cpp", "src/datastructure/MultiBodyTree3D.cpp"],
  [("sampling of C-slices", "ProbHRM3D::sampleOrientations"), ("bridge slice from enclosing ellipsoids of every step", "ProbHRM3D::computeTFE"), ("connection to the nearest C-slice", "ProbHRM3D::connectMultiSlice"), ("joints of a C-slice's vertices", "ProbHRM3D::generateVertices")],
  GRAPH, tech=RM + "vertices and edges are re-driven with independent forward kinematics and collision oracle")
OI = "src/planners/ompl_interface/"
p("O01", "Sampling-based planners return collision-free paths from start to goal",
  "When a planar, spatial or articulated sampling-based planner reports a query solved, its path and its interpolated path start at the start, end at the goal, stay within position bounds and joint limits, pass each other's poses in order and keep every body out of every obstacle up to the planner's collision-checking resolution. When it does not, there is no path.",
  ["inputs", "configurations", "schedules"], "all scenes, queries, planners and samplers", "Tests check only that a single query is reported solved.",
  [OI + "OMPLInterface.cpp", OI + "OMPL2D.cpp", OI + "OMPL3D.cpp", OI + "OMPL3DArticulated.cpp"],
  [("state space, bounds and validity checker", "setStateSpace, isStateValid"), ("start, goal and solution exchange", "OMPLInterface::plan, setStateFromVector, setVectorFromState")],
  ["plan(), getSolutionPath, getInterpolatedSolutionPath"], tech=RM + "returned paths are re-driven by an independent collision oracle")
p("O02", "A sampled state is valid exactly when the robot there is free",
  "The planners' state validity test accepts every state at which the oracle sees all bodies clearly apart from all obstacles and rejects every state at which one body clearly overlaps one obstacle; states survive conversion to and from configuration vectors, and the robot is placed for a state where its kinematics say.",
  ["inputs", "configurations"], "all scenes, robots and states", "No test looks at the validity of a state.",
  [OI + "OMPL2D.cpp", OI + "OMPL3D.cpp", OI + "OMPL3DArticulated.cpp", "src/util/EllipsoidSQCollisionFCL.cpp", "src/util/EllipsoidSeparation.cpp"],
  [("validity test", "isStateValid, isSeparated"), ("placement of the robot", "transformRobot")],
  ["isStateValid, transformRobot, setStateFromVector, setVectorFromState"], tech=OR + "validity verdicts of random states against a support-function collision oracle")
p("O03", "Queries to one sampling-based planner do not leak into each other",
  "Planning several queries with one planner object, also unsolvable ones with a blocked start or goal, gives for each query only its own path or none; the roadmap it reports afterwards consists of states within bounds, of edges between existing states, contains the query's start and goal, and for planners that check before keeping is free of collisions.",
  ["inputs", "histories", "configurations"], "all histories of solvable and blocked queries", "Every test plans one query per planner.",
  [OI + "OMPLInterface.cpp"], [("clearing between queries", "OMPLInterface::plan"), ("reported roadmap", "getVertices, getEdges, getNumVertex, getNumEdges, getValidStatePercent")],
  ["results of every query in a history, getVertices, getEdges"], state=[("simple setup", "problem definition, planner data and path of the current query", "OMPLInterface::ss_")],
  tech=RM + "every query of a random history judged as if it were the only one")
PS = "src/test/util/ParsePlanningSettings.cpp"
p("S01", "The scene planned in is the scene written in the files",
  "Reading a configuration gives exactly the numbers in the file, without comment and blank lines; converting a resource scene and loading it gives the arena, obstacles, robot bodies, orientations and start and goal configurations, with a value for each joint, that the resource files describe, to the six digits written in between.",
  I, "all configuration and resource files of planar, rigid and articulated problems", "Tests load one scene and do not look at it.",
  [PS, "include/hrm/test/util/ParsePlanningSettings.h", "src/util/Parse2dCsvFile.cpp"],
  [("reading rows", "parse2DCsvFile"), ("axis-angle to quaternion", "parseGeometricModel, parseStartGoalConfig"), ("rows to shapes and trees", "loadVectorGeometry, loadRobotMultiBody2D/3D, loadPreDefinedQuaternions, PlannerSetting::loadEnvironment")],
  ["loaded objects against the text of the files"], tech=OR + "loaded scenes compared with an independent reader's, generated and shipped files")
p("E01", "The shipped scenes and robots plan to valid roadmaps and paths, end to end",
  "Preparing any shipped environment with any shipped robot through the library's own configuration reader, deriving the parameters and planning with the planar, spatial, articulated or sampling-based planner gives start and goal as the files say, a roadmap or path within the derived limits whose vertices and edges keep every body of the robot in the files out of every obstacle in the files, and a path, if any, that joins start and goal along roadmap edges.",
  ["inputs", "configurations"], "all pairs of shipped environments and robots, sweep-line and slice numbers and shipped rotation sets", "Tests and demonstrations plan a handful of these pairs and look at whether something was found.",
  [PS, "include/hrm/test/util/ParsePlanningSettings.h", HR, H2, H3, "src/planners/ProbHRM3D.cpp", OI + "OMPLInterface.cpp", "resources"],
  [("resources to configuration", "parsePlanningConfig"), ("configuration to scene", "loadEnvironment, loadRobotMultiBody2D/3D"), ("parameters from the scene", "defineParameters"), ("planning", "plan()")],
  ["published roadmap and path against the resource files"], tech=RM + "shipped scenes planned end to end; vertices, edges and paths are re-driven with bodies and obstacles read by an independent reader")
p("S02", "Exported results are the results",
  "The vertex, edge, path, interpolated-path, boundary and free-segment files written for a result hold that result and nothing of an earlier one, in the order of the result, to six digits; printed summaries state its counts, cost and times.",
  ["inputs", "histories"], "all results, also empty and large ones, and sequences of exports under the same and other names", "No test reads an exported file.",
  ["src/test/util/DisplayPlanningData.cpp", "include/hrm/test/util/DisplayPlanningData-inl.h"],
  [("graph and path files", "storeGraphInfo, storePathInfo"), ("boundary and segment files", "storeRoutines"), ("summaries", "displayGraphInfo, displayPathInfo, displayPlanningTimeInfo")],
  ["files in SOLUTION_DETAILS_PATH read back"], tech=OR + "exported files read back and compared with the result in memory")
p("S03", "The planning domain derived from a scene is the arena shrunk by the robot",
  "The limits derived for a scene are centred on the arena and as wide as the arena less the stated multiple of the robot base's first semi-axis; the number of sweep lines is that width over the smallest semi-axis of all obstacles unless the user set it, spatial slices match the predefined orientations, and no other parameter changes.",
  I, "all robots, arenas, obstacle lists and preset parameters", "Tests use the derived parameters without looking at them.",
  [PS, "include/hrm/test/util/ParsePlanningSettings.h"], [("limits and line counts", "defineParameters"), ("smallest obstacle", "computeObstacleMinSize")],
  ["PlannerParameter after defineParameters"], tech=OR + "derived parameters recomputed from the scene")
p("P11", "Planners and geometry can be used from several threads",
  "Threads that each use their own planner, or share constant robots, obstacles and requests, do not race with one another, and every thread's result is what it would have been alone.",
  ["schedules", "inputs"], "all schedules of 2 to 6 threads over planners and geometry functions", "Tests are single-threaded.",
  [HR, H2, H3, "src/planners/ProbHRM3D.cpp", "src/geometry", "src/util"], [("no shared mutable state", "planner members, const geometry")],
  ["memory accesses of all threads (ThreadSanitizer), results bit for bit"], tech="runtime monitor: ThreadSanitizer over concurrent planners, results compared bit for bit with sequential runs")
p("P12", "No input makes the library touch wrong memory or compute nonsense silently",
  "Whatever legal scene, robot, parameters and order of calls it is given, the library reads and writes only its own live memory, releases what it allocates, and performs no undefined arithmetic or conversion.",
  ["inputs", "histories", "configurations"], "all properties' workloads plus extreme parameters, degenerate scenes, copied planners and repeated calls", "Tests run without sanitizers on benign inputs.",
  ["src", "include"], [("index tables", "HighwayRoadMap-inl.h, HRM2D.cpp, HRM3D.cpp, ProbHRM3D.cpp"), ("mesh and polygon indexing", "src/geometry")],
  ["every memory access and arithmetic operation of the instrumented library"], tech="AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and libstdc++/Eigen assertions over all workloads")
p("Y01", "The Python viewer draws the planner's scene, robot and results",
  "A drawn superquadric is made of points of its surface, all around, in its pose; a rigid or articulated robot placed at a configuration has every body where the planner puts it, whatever it was placed at before; and loaded scenes and results hold the numbers in the files.",
  ["inputs", "histories"], "all shapes, body trees, URDF robots with axis-aligned joints, configurations and result files", "Its tests only check that drawing does not fail.",
  ["demo/python/SuperQuadrics.py", "demo/python/MultiBodyTree.py", "demo/python/robot_generator.py", "demo/python/result_loader.py"],
  [("surface points", "SuperQuadrics.get_points"), ("kinematics", "MultiBodyTree.transform"), ("files", "result_loader")],
  ["surfaces handed to the plotting library, loaded arrays"], tech="runtime monitor: a recording plot axis and an independent implementation of surface, kinematics and files")
