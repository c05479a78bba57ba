"""Single source for properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or []))


INC = "include/arc_utilities/"
SRC = "src/arc_utilities/"
SAN = "real code under ASan+UBSan with live assert()"

prop("C01", "Binary serialization round-trips and accounts for every byte",
     "Serializing any value (fixed-size number, string, vector, vector-like, map, pair, or any nesting of these) appends to the buffer without disturbing earlier bytes, returns exactly the number of bytes appended, and deserializing at that offset returns a bit-identical value and that same byte count. The host variants write the host representation; the network variants write every number and every 64-bit length header big-endian. Reading a truncated value is refused (abort or exception) rather than satisfied from memory outside the buffer.",
     ["inputs", "histories"], "all values of the supported types, including NaN payloads, empty containers and embedded zeros, any sequence of values in one buffer, any truncation point",
     "Tests serialize a handful of graphs and Eigen values; none uses the network variants, nested containers, concatenated streams or truncated buffers.",
     [INC + "serialization.hpp"],
     [("size header + per-item serializer + returned byte count", INC + "serialization.hpp SerializeVector/Map/Pair/String"),
      ("htobe/betoh swap", INC + "serialization.hpp SerializeNetworkFixedSizePOD")],
     "reference encoder oracle over recorded byte streams under ASan/UBSan", SAN + "; random nested values compared with an independently written encoder")

prop("C02", "Eigen vectors, matrices and transforms serialize losslessly",
     "For every supported vector, matrix and rigid-transform type, and every run-time size including zero rows or columns, the serialized form has exactly the size reported in advance and deserializing it returns a bit-identical object of the same dimensions and the same byte count. Several such values written to one buffer read back in order from the running offset, and truncated buffers are refused rather than over-read.",
     ["inputs", "histories"], "all dimensions and all double/float bit patterns for the supported types",
     "The two existing tests round-trip a few random values one at a time at offset zero.",
     [INC + "serialization_eigen.hpp"],
     [("row/col headers for dynamic sizes", INC + "serialization_eigen.hpp SerializeEigen"), ("per-type DeserializeEigen", INC + "serialization_eigen.hpp")],
     "round-trip and byte-layout oracle under ASan/UBSan", SAN + "; random dimensions and raw bit patterns")

prop("C03", "Compression is lossless, rejects corruption, and reports failed writes",
     "Decompressing the compressed form of any byte sequence returns exactly that sequence, and the same holds through a file or through consecutive numbered slices of a file. Truncated or corrupted compressed data never decompresses silently to a wrong result: an exception is thrown. A write that does not fully reach the file, or a file that cannot be opened or read, is reported by an exception.",
     ["inputs", "fault_sequences"], "all byte sequences (empty, incompressible, larger than the internal buffers), all truncations and bit flips, missing/unwritable/full destinations",
     "No existing test touches compression.",
     [SRC + "zlib_helpers.cpp", INC + "zlib_helpers.hpp"],
     [("deflate/inflate loops with return code checks", SRC + "zlib_helpers.cpp CompressBytes/DecompressBytes"), ("stream state checks", SRC + "zlib_helpers.cpp CompressAndWriteToFile/LoadFromFileAndDecompress")],
     "differential monitor against zlib one-shot API plus fault injection on data and files", SAN + "; zlib itself is trusted; faults: truncation, bit flips, /dev/full, missing paths")

prop("C04", "Base64 is standard, lossless, and decodes any text safely",
     "Encoding any bytes yields the standard padded Base64 text, and decoding that text, with or without its padding and in the standard or URL-safe alphabet, returns the original bytes. Decoding an arbitrary string never reads or writes outside its buffers.",
     ["inputs"], "all byte sequences and all strings, including bytes above 127",
     "No existing test touches Base64.",
     [SRC + "base64_helpers.cpp", INC + "base64_helpers.hpp"],
     [("lookup tables and padding arithmetic", SRC + "base64_helpers.cpp Encode/Decode")],
     "reference codec oracle under ASan/UBSan", SAN + "; independent RFC 4648 codec; exhaustive for lengths 0..2")

prop("C05", "Graph linkage stays consistent through every mutation history",
     "However a graph is built and mutated, every edge appears exactly once in its source's outgoing list and once in its target's incoming list with equal weight and endpoints, and edge, reverse-edge, range and node queries agree with a plain edge-list model of the same history. The linkage check accepts every graph built this way and rejects node sets in which a listed edge is misfiled, out of range, a self-loop or without counterpart, and construction from such nodes throws. Graph serialization round-trips nodes, values, edges and edge order exactly.",
     ["histories", "inputs"], "all sequences of node/edge additions, weight and validity updates and queries; all corruptions of one edge list",
     "Two tests build one fixed graph each.",
     [INC + "graph.hpp"],
     [("paired in/out edge insertion", INC + "graph.hpp addEdgeBetweenNodes/addEdgesBetweenNodes"), ("linkage check", INC + "graph.hpp CheckGraphLinkage")],
     "model-based history monitor (edge-list reference) under ASan/UBSan", SAN + "; random operation histories against a reference edge list")

prop("C06", "Dijkstra returns true shortest distances and consistent back-pointers",
     "On any graph with non-negative weights, the distance reported for each node is the length of the shortest directed path from that node to the start node (infinite if there is none), and the stored distance on the returned graph agrees with it. Following back-pointers from any reachable node reaches the start along existing edges whose weights sum to that distance, unreachable nodes carry the no-predecessor marker, out-of-range starts throw, and the input graph is unchanged. A serialized result deserializes to the same result.",
     ["inputs"], "all finite directed multigraphs with non-negative weights, all start nodes",
     "One fixed graph is tested.",
     [INC + "dijkstras.hpp", INC + "graph.hpp"],
     [("priority queue relaxation over incoming edges", INC + "dijkstras.hpp PerformDijkstrasAlgorithm")],
     "Bellman-Ford reference oracle and path-replay monitor under ASan/UBSan", SAN + "; random graphs incl. zero weights, ties, self loops, parallel edges, unreachable parts")

prop("C07", "Graph A* returns a valid, optimal path or reports that none exists",
     "With an admissible heuristic, graph A* (eager or lazy, with or without duplicate limiting) returns a start-to-goal path over existing edges that are not marked invalid and pass the validity check, whose reported cost equals the sum of its edge costs and equals the minimum over all such paths. If no such path exists the path is empty and the cost infinite; a start equal to the goal or out-of-range indices throw. Only edges leaving expanded nodes are queried, and the input graph is not modified.",
     ["inputs"], "all graphs, weights (including infinite), validity assignments, admissible heuristics (consistent or not), and both duplicate settings",
     "Two tests use one small graph.",
     [INC + "dijkstras.hpp", INC + "arc_helpers.hpp"],
     [("lazy A* loop with re-opening", INC + "dijkstras.hpp PerformLazyAstar"), ("path extraction", INC + "arc_helpers.hpp ExtractAstarResult")],
     "reference shortest-path oracle and path-replay monitor under ASan/UBSan", SAN)

prop("C08", "Generic A* planners return valid optimal plans over callback-defined spaces",
     "The callback-driven A* searches (integer-id search and configuration-space planner) return, under the heuristic assumptions they state, a start-to-goal sequence in which each step is a generated valid neighbour and whose cost is minimal and reported exactly. They return an empty plan exactly when no goal is reachable, and always terminate on finite spaces.",
     ["inputs"], "all finite state spaces, start states, goal predicates and consistent heuristics",
     "No existing test runs either planner.",
     [INC + "arc_helpers.hpp", INC + "simple_astar_planner.hpp"],
     [("GenericAstarSearch", INC + "arc_helpers.hpp"), ("frontier/explored/backpointer maps", INC + "simple_astar_planner.hpp Plan")],
     "reference shortest-path oracle over recorded callbacks under ASan/UBSan", SAN)

prop("C09", "Connectivity labels and random walks respect the graph",
     "On any graph whose edges come in both directions, the connectivity labelling gives two nodes the same label exactly when a path joins them, with labels 1 to the reported component count. A random walk towards a reachable goal returns a path that starts at the start, ends at the goal, follows existing edges, and never repeats a node.",
     ["inputs", "schedules"], "all undirected graphs; all seeds and start/goal pairs",
     "No existing test exercises either.",
     [INC + "graph.hpp", INC + "dijkstras.hpp"],
     [("component marking", INC + "graph.hpp getConnectedComponentsUndirected"), ("loop trimming", INC + "dijkstras.hpp PerformRandomWalk")],
     "union-find oracle and walk-validity monitor under ASan/UBSan", SAN)

prop("C10", "PRM roadmaps are well linked and queries return valid shortest paths",
     "Growing or extending a roadmap keeps linkage consistent, stores only sampled valid states, joins states only by edges that passed the edge check, and labels each direction with the distance measured in that direction. A query returns a path from one of the given starts to one of the given goals through roadmap states over collision-free edges, with the cost of the shortest such path in the roadmap augmented with the query states, or an empty path with infinite cost when none exists. Queries on a const roadmap leave it untouched, and serial and parallel modes agree.",
     ["inputs", "histories", "schedules"], "all sampled environments, neighbour counts, symmetric and asymmetric distances, and query sequences",
     "No existing test runs the planner.",
     [INC + "simple_prm_planner.hpp"],
     [("AddNodeToRoadmap", INC + "simple_prm_planner.hpp"), ("lazy/eager queries", INC + "simple_prm_planner.hpp Query*")],
     "roadmap invariant monitor plus reference shortest-path oracle, ASan/UBSan and OpenMP", SAN)

prop("C11", "RRT planners return only connected, validated, loop-free paths",
     "Every path returned by the single-tree and bidirectional tree planners starts at the root (start) and ends at a goal, and each step was produced by the forward-propagation or connection callback from its predecessor. Every planner tree keeps parent and child links mutually consistent and acyclic, and reported statistics agree with what was observed. Malformed trees and forward-linking propagations are refused, and tree nodes serialize and deserialize without loss.",
     ["inputs", "schedules", "histories"], "all seeds, callbacks and termination conditions",
     "The header is not even compiled by the tests.",
     [INC + "simple_rrt_planner.hpp"],
     [("tree extension and linkage check", INC + "simple_rrt_planner.hpp PlanMultiPath/CheckTreeLinkage"), ("path extraction", INC + "simple_rrt_planner.hpp ExtractSolutionPath")],
     "trace monitor over planner callbacks under ASan/UBSan", SAN)

prop("C12", "The voxel grid behaves as a bounded map from cells to values",
     "For any grid geometry and history of reads and writes by index or location, each in-bounds cell returns the last value written to it (or the default) and nothing else changes, while out-of-bounds accesses return the out-of-bounds value and report failure without side effects. The cell reported for a location is the one whose axis-aligned box in the grid frame contains it, and a cell's reported centre maps back to that cell. Copies are independent and serialization round-trips the whole grid.",
     ["inputs", "histories"], "all sizes, cell sizes, origin transforms, indices (including negative and huge), locations and operation histories",
     "No existing test uses the voxel grid.",
     [INC + "voxel_grid.hpp"],
     [("index arithmetic and bounds check", INC + "voxel_grid.hpp GetDataIndex/IndexInBounds"), ("location to index", INC + "voxel_grid.hpp LocationToGridIndex")],
     "model-based history monitor (map reference) under ASan/UBSan", SAN)

prop("C13", "The sparse hashed voxel grid behaves as an unbounded map of cells and chunks",
     "For any history of cell and chunk writes and queries at locations of any sign and on any boundary, a query returns the value and provenance (nothing, whole chunk, or individual cell) given by the most recent applicable write, and other locations are unaffected. Points in the same cell of the grid frame share a value whatever the origin transform or sign of coordinates, and reported cell and chunk geometry contains the queried point. Copies preserve every stored value and are independent.",
     ["inputs", "histories"], "all chunk shapes, cell sizes, origins, locations and operation histories",
     "No existing test uses the sparse grid.",
     [INC + "dynamic_spatial_hashed_voxel_grid.hpp"],
     [("region hashing", INC + "dynamic_spatial_hashed_voxel_grid.hpp GetContainingChunkRegion"), ("chunk/cell fill state", INC + "dynamic_spatial_hashed_voxel_grid.hpp DynamicSpatialHashedVoxelGridChunk")],
     "model-based history monitor (map reference) under ASan/UBSan", SAN)

prop("C14", "Hierarchical clustering partitions items and honours the distance limit",
     "Every item appears in exactly one returned cluster. With complete linkage no two items in one cluster are farther apart than the limit and no two clusters could be merged within it; with single linkage the clusters are exactly the connected components of the within-limit relation. Merging proceeds closest pair first, reported spacing equals the actual smallest distance between clusters (infinite when fewer than two are left), and parallel and serial builds agree on all of this.",
     ["inputs", "schedules"], "all symmetric distance matrices, limits and linkage strategies",
     "The one test program runs a fixed small input and checks nothing.",
     [INC + "simple_hierarchical_clustering.hpp"],
     [("closest pair search and merge", INC + "simple_hierarchical_clustering.hpp GetClosestPair/Cluster")],
     "partition/linkage oracle over outputs under ASan/UBSan, serial and OpenMP builds", SAN)

prop("C15", "K-means returns a complete labelling consistent with its centres",
     "Every item receives exactly one label within range, the label of a nearest centre among the returned centres, and each returned centre is the (weighted) average of the items with its label. Weights always accompany their own items, averages are only ever taken over non-empty sets, equal inputs with equal starting centres give equal results, and the search ends for every data set at least as large as the number of clusters.",
     ["inputs"], "all data sets, cluster counts, seeds and weights",
     "No existing test runs k-means.",
     [INC + "simple_kmeans_clustering.hpp"],
     [("assign/average loop", INC + "simple_kmeans_clustering.hpp Cluster/ClusterWeighted")],
     "fixpoint oracle over outputs under ASan/UBSan", SAN)

prop("C16", "Warping and Hausdorff distances equal their definitions",
     "The dynamic-time-warping cost of two sequences is the minimum total cost over all monotone alignments, also when one evaluator is reused for sequences of varying lengths. The Hausdorff distance is the largest nearest-neighbour distance from the first set to the second, identically in serial and parallel builds.",
     ["inputs", "histories", "schedules"], "all non-empty sequences and distance functions, all evaluator reuse histories",
     "One fixed pair of sequences is tested.",
     [INC + "simple_dtw.hpp", INC + "simple_hausdorff_distance.hpp"],
     [("DTW recurrence", INC + "simple_dtw.hpp EvaluateWarpingCost"), ("max-min loop", INC + "simple_hausdorff_distance.hpp ComputeDistance")],
     "brute-force reference oracle under ASan/UBSan", SAN)

prop("C17", "Distance matrices and nearest-neighbour search match exhaustive search",
     "A distance matrix has one row per item of the first set and one column per item of the second, each entry being the distance function applied to that pair. For finite distances, K-nearest-neighbour search returns min(K, n) distinct indices with their true distances in a set no farther than any omitted item, including when distances tie. Serial and parallel variants agree.",
     ["inputs", "schedules"], "all data sets (including empty), distance functions, K",
     "One program checks one fixed input.",
     [INC + "arc_helpers.hpp"],
     [("GetKNearestNeighbors*, BuildDistanceMatrix*", INC + "arc_helpers.hpp")],
     "brute-force reference oracle under ASan/UBSan and OpenMP", SAN)

prop("C18", "Generators follow their published sequences and replay from a seed",
     "Each pseudo-random generator, from any seed, produces exactly the sequence of its published reference algorithm; re-seeding restarts that sequence whatever was drawn before, and discarding n values is the same as drawing n values. Stated minimum and maximum bound every output.",
     ["inputs", "histories"], "all seeds, all histories of draws, discards and re-seeds",
     "No existing test checks the generators.",
     [INC + "arc_helpers.hpp"],
     [("SplitMix64PRNG, XorShift128PlusPRNG, XorShift1024StarPRNG", INC + "arc_helpers.hpp")],
     "lock-step reference generator monitor under UBSan", SAN)

prop("C19", "Random samples stay in their support and follow their distribution",
     "A truncated normal sample always lies within its bounds and is always produced, for every mean, positive deviation and non-empty bounds including far tails, narrow and one-sided bounds, and its distribution is the stated one; the Gaussian density, distribution and interval functions agree with one another. Random rotations are unit and cover rotation space uniformly, random Euler angles lie within one turn and describe uniform rotations, and multivariate samples have the given mean and covariance. Equal seeds give equal samples.",
     ["inputs", "histories"], "all distribution parameters and seeds",
     "No existing test samples these.",
     [INC + "arc_helpers.hpp"],
     [("TruncatedNormalDistribution cases", INC + "arc_helpers.hpp"), ("RandomRotationGenerator", INC + "arc_helpers.hpp")],
     "support monitor on every sample plus fixed-seed goodness-of-fit test, ASan/UBSan", SAN + "; distribution fit decided on fixed seeds with wide margins")

prop("C20", "Angle arithmetic obeys the circle",
     "Normalizing an angle changes it only by whole turns and lands in the canonical half-open range; the signed distance between two angles is the shortest rotation taking the first to the second, in the same half-open range, the unsigned distance is its magnitude, and range tests, bound tests and interpolation agree with that circular geometry. Results are invariant to adding whole turns to the inputs.",
     ["inputs"], "all finite angles, including multiples and near-multiples of half turns and large magnitudes",
     "Three fixed-value tests exist.",
     [INC + "math_helpers.hpp"],
     [("EnforceContinuousRevoluteBounds and distance functions", INC + "math_helpers.hpp")],
     "metamorphic and reference-trigonometry oracle under UBSan", SAN)

prop("C21", "Interpolation and averaging stay between their inputs and reach the endpoints",
     "Interpolating any supported value (number, angle, vector, quaternion, pose) at ratio 0 and 1 returns the endpoints, at intermediate ratios moves proportionally along the shortest path, and out-of-range ratios are clamped. Averages of equal inputs return that input, are independent of input order, follow weights, and rotations stay unit.",
     ["inputs"], "all value pairs, ratios, weights and set sizes",
     "Two programs check fixed inputs.",
     [INC + "eigen_helpers.hpp", INC + "math_helpers.hpp"],
     [("Interpolate*, Average*", INC + "eigen_helpers.hpp")],
     "endpoint/proportionality/metamorphic oracle under ASan/UBSan", SAN)

prop("C22", "Geometric predicates and projections satisfy their defining equations",
     "Projection and rejection decompose a vector into parallel and orthogonal parts that sum to it; closest points, distances to lines, segments and planes, and plane fits satisfy their optimality conditions; hyperplane queries agree with the plane equation; angle queries agree with the dot product. Results never become NaN for finite non-degenerate input, including identical or nearly identical arguments.",
     ["inputs"], "all finite non-degenerate vectors, points, planes and rotations",
     "A few fixed values are tested.",
     [INC + "eigen_helpers.hpp"],
     [("VectorProjection/Rejection, DistanceToLine, ClosestPointOnLineSegment, SuggestedRotation...", INC + "eigen_helpers.hpp")],
     "defining-equation oracle under ASan/UBSan", SAN)

prop("C23", "Rigid-motion algebra is self-consistent",
     "Skew and unskew are inverse and encode the cross product; exponential and logarithm of twists are inverse on the principal domain and agree with the matrix exponential; twist conversions between frames use the adjoint consistently; exponentials are rigid transforms. Conversions between quaternion, Euler and matrix forms are consistent.",
     ["inputs"], "all twists, rotations up to half a turn, transforms and quaternions",
     "One program checks fixed values.",
     [INC + "eigen_helpers.hpp"],
     [("Skew/Unskew/ExpMatrix/TwistBetweenTransforms/AdjointFromTransform", INC + "eigen_helpers.hpp")],
     "inverse-law and matrix-series oracle under ASan/UBSan", SAN)

prop("C24", "Pseudo-inverse and least-squares solvers return genuine solutions",
     "The pseudo-inverse satisfies the Penrose conditions for any matrix shape and rank at the stated tolerance; the least-squares solvers return a minimiser of the residual (of minimum norm where stated), the damped and weighted forms satisfy their own normal equations, and all choose the same solution on full-rank systems.",
     ["inputs"], "all well-scaled matrices of any shape and rank, all right-hand sides",
     "No existing test covers them.",
     [INC + "eigen_helpers.hpp"],
     [("Pinv, WeightedLeastSquaresSolver, UnderdeterminedSolver", INC + "eigen_helpers.hpp")],
     "normal-equation oracle under ASan/UBSan", SAN)

prop("C25", "Time-optimal trajectories follow the path and respect all limits",
     "For any list of two or more distinct waypoints that never doubles straight back, positive limits and a positive allowed deviation, a generated trajectory starts and ends at rest at the first and last waypoint, stays within the allowed deviation of the piecewise-linear path, advances along it with positions that match the velocities, keeps every joint within its velocity and acceleration limits up to a few integration steps, and keeps some joint at a limit for most of the motion (a straight motion takes the shortest possible time). A step too coarse for a tight corner may be refused with an exception, but a finer one succeeds. What a trajectory or path answers does not depend on earlier queries, nor on copying, assigning or destroying other objects.",
     ["inputs", "histories"], "all non-degenerate waypoint lists, dimensions, limits, time steps, deviations, query orders and copy/destroy histories",
     "No existing test runs the parametrization.",
     [SRC + "time_optimal_trajectory_parametrization.cpp", INC + "time_optimal_trajectory_parametrization.hpp"],
     [("blend construction", SRC + "time_optimal_trajectory_parametrization.cpp Path"), ("forward/backward integration", SRC + "time_optimal_trajectory_parametrization.cpp Trajectory"), ("cached segment lookup", SRC + "time_optimal_trajectory_parametrization.cpp GetTrajectorySegment")],
     "trajectory sampling monitor (limits, deviation, monotonicity, query-order independence) under ASan/UBSan", SAN)

prop("C26", "Thin-plate splines interpolate their control points and reproduce affine maps",
     "A spline fitted to matched, distinct control points maps every control point to its target and is the standard thin-plate spline through them, so an affine image of the controls in general position gives exactly that affine map everywhere. Refitting with new control or target points gives the same spline as a fresh fit, and missing or mismatched points are refused.",
     ["inputs", "histories"], "all non-degenerate 2-D and 3-D control sets and targets, all refit histories",
     "The one test needs ROS and is not run here.",
     [INC + "thin_plate_spline.hpp"],
     [("linear system assembly and solve", INC + "thin_plate_spline.hpp")],
     "interpolation and affine-reproduction oracle under ASan/UBSan", SAN)

prop("C27", "Path processing preserves endpoints, order and validated edges",
     "Shortcut smoothing keeps the endpoints and the order of the remaining points, uses only edges that were on the path or were reported valid, never lengthens the path, and respects its iteration and failure limits. Resampling keeps every distinct point of the requested portion, adds points only on its segments, leaves no step longer than the resolution and refuses impossible portions; upsampling returns exactly the requested number of points, spread so that the longest step is as short as possible, or the portion itself if it already has enough. The distances along a path are the sums of its steps.",
     ["inputs", "schedules"], "all paths (including single points and repeated points), resolutions, edge checkers and seeds",
     "No existing test covers the C++ path utilities.",
     [INC + "path_utils.hpp"],
     [("ShortcutSmooth, ResamplePath, UpsamplePath, CalculateTotalDistance", INC + "path_utils.hpp")],
     "trace monitor over edge-check callbacks plus geometric oracle under ASan/UBSan", SAN)

prop("C28", "Linked robot models compute true kinematics within joint limits",
     "For any valid link and joint tree, in whatever order the joints are listed, each link's pose equals the product of fixed and joint motions from the base, moves rigidly with the base pose, and every computed Jacobian equals the numerical derivative of the forward kinematics. Joint values are always kept within their limits (wrapping for continuous joints). Model validation accepts exactly well-formed trees and rejects the rest without crashing, and joint models serialize losslessly.",
     ["inputs", "histories"], "all well-formed and malformed link/joint lists, configurations and update histories",
     "No existing test covers robot models.",
     [INC + "simple_linked_robot_model.hpp"],
     [("UpdateTransforms", INC + "simple_linked_robot_model.hpp"), ("ComputeLinkPointTranslationJacobian", INC + "simple_linked_robot_model.hpp"), ("SanityCheckRobotModel", INC + "simple_linked_robot_model.hpp"), ("SimpleJointModel::SetValue", INC + "simple_linked_robot_model.hpp")],
     "reference forward-kinematics and numeric-derivative oracle under ASan/UBSan", SAN)

prop("C29", "Closed-form arm kinematics agree with the arms' joint chain",
     "For each supported arm and any joint values, every link pose equals the product of that arm's fixed link offsets and joint rotations, is a rigid transform, and moves rigidly with the base pose. Vector and named-map inputs and outputs agree with one another.",
     ["inputs"], "all joint values and base poses for every supported arm",
     "No existing test covers the arm kinematics.",
     [INC + "iiwa_7_fk_fast.hpp", INC + "iiwa_14_fk_fast.hpp", INC + "abb_irb1600_145_fk_fast.hpp", INC + "ur_10_fk_fast.hpp"],
     [("per-link transform functions", INC + "*_fk_fast.hpp")],
     "independent joint-chain reference oracle under ASan/UBSan", SAN)

prop("C30", "The profiler conserves every recording and never crashes on queries",
     "Over any history of starts, recordings, double starts, resets and re-initialisations across names, each name holds exactly the recordings made for it, in order, and counts, sums, averages, minima and maxima reported for it are those of that list. Every report, print and file write is safe for names with no data, unknown names and empty profilers, and written files contain every stored value exactly once, to the printed precision.",
     ["histories"], "all operation histories over any set of names",
     "Eight tests run short fixed histories.",
     [INC + "timing.hpp", SRC + "timing.cpp"],
     [("data and timer maps", SRC + "timing.cpp Profiler")],
     "model-based history monitor under ASan/UBSan", SAN)

prop("C31", "Concurrent logging loses, tears and duplicates nothing",
     "With any number of threads logging to one log, every message appears in the file exactly once, whole, and in order per thread, once the log is closed. Copies of a log continue the same file without discarding what was written, and logging introduces no data race.",
     ["schedules", "histories"], "all interleavings of threads, messages and copies",
     "No existing test covers logging.",
     [INC + "log.hpp"],
     [("stream insertion and mutex", INC + "log.hpp")],
     "offline exactly-once checker over the written log plus ThreadSanitizer", "TSan and ASan builds; interleavings actually produced by 2-8 threads")

prop("C32", "First-order deformations are found exactly when they exist",
     "A search for a deformation between two paths returns a sequence of index pairs exactly when one exists: from both starts (taken as given) to both ends, each step changing each index by at most one, never repeating a pair, and every later pair passing the caller's check. It always terminates, returns an empty sequence otherwise, and only queries pairs inside the grid.",
     ["inputs"], "all path pairs and pair-validity relations",
     "No existing test covers it.",
     [SRC + "first_order_deformation.cpp", INC + "first_order_deformation.h"],
     [("grid best-first search", SRC + "first_order_deformation.cpp GetFirstOrderDeformation")],
     "grid-reachability reference oracle under ASan/UBSan", SAN)

prop("C33", "Bit, list, map, hash, grid, colour and optional helpers match definitions",
     "Reading and writing any bit of an 8- to 64-bit integer, clamping and spreading values, element-wise arithmetic on pairs and lists (lists of unequal length give an empty result), lookups and rebuilding of maps, numbering and finding list items, container hashing (equal values hash equally), grid neighbours for bounds on the grid, and building, converting and interpolating colours return exactly what a direct definition gives, nothing lost, duplicated or reordered. Accessing an empty optional is refused, and a held value survives any history of assignments and copies. Helpers leave no files open and print only what their level allows.",
     ["inputs"], "all inputs within each helper's documented domain",
     "A few fixed inputs are tested.",
     [INC + "arc_helpers.hpp", INC + "vector_math.hpp", INC + "maybe.hpp", INC + "get_neighbours.hpp", INC + "hash.hpp", INC + "stl_wrappers.hpp", INC + "enumerate.h", INC + "math_helpers.hpp"],
     [("helper functions", INC + "arc_helpers.hpp")],
     "reference-definition oracle under ASan/UBSan", SAN)

prop("C34", "Type conversions round-trip without loss or over-read",
     "Converting between library, standard-container and message representations of points, vectors, quaternions, transforms and plans and back returns the original value, element for element and in order. Conversions read and write only inside their arguments.",
     ["inputs"], "all values and lengths",
     "The conversion headers need ROS and are not compiled by the tests.",
     [INC + "eigen_std_conversions.hpp", INC + "eigen_helpers_conversions.hpp", INC + "eigen_ros_conversions.hpp", INC + "geometry_msgs_builders.hpp"],
     [("field-by-field copies", INC + "eigen_helpers_conversions.hpp")],
     "round-trip oracle under ASan/UBSan with stand-in message types", SAN + "; ROS message structs replaced by plain stand-ins with the same fields")

prop("C35", "Planar and spatial rigid-body robot models keep valid configurations",
     "Setting any configuration keeps planar headings wrapped and spatial orientations unit, distance between configurations is a symmetric, zero-iff-equal measure of the stated weighted form, interpolation reaches both ends, averages of equal configurations are that configuration, and point Jacobians equal numerical derivatives. Serialized configurations round-trip.",
     ["inputs", "histories"], "all configurations, points and update histories",
     "The headers are not compiled by the tests.",
     [INC + "simple_se2_robot_model.hpp", INC + "simple_se3_robot_model.hpp", INC + "simple_robot_models.hpp"],
     [("SetConfig / Jacobian / distance", INC + "simple_se2_robot_model.hpp / simple_se3_robot_model.hpp")],
     "numeric-derivative and metric-law oracle under ASan/UBSan", SAN)

prop("C47", "Printing shows every element of every container once, in order",
     "The printed text of any pair, array, sequence, map or set, nested to any depth, holds every element exactly once in iteration order, joined by the requested separator and, on request, enclosed in the container's delimiters; booleans print as words. Vectors, matrices, orientations and poses print all their coordinates in order to twelve significant digits.",
     ["inputs"], "all values, nestings and separators",
     "Tests only print.",
     [INC + "pretty_print.hpp", INC + "ostream_operators.hpp"],
     [("PrettyPrint overloads", INC + "pretty_print.hpp"), ("operator<<", INC + "ostream_operators.hpp")],
     "composed rendering and number-parsing oracle under ASan/UBSan", SAN)

prop("C48", "The padded 3-vector behaves as an ordinary 3-vector after any operations",
     "After any sequence of assignments, in-place and ordinary additions, subtractions, scalings, cross products and normalizations, the padded 3-vector has the coordinates of an ordinary 3-vector put through the same sequence, and its dot product, sum, squared norm, norm and comparison agree, for small and large coordinates alike. Its padding coordinate stays one throughout.",
     ["inputs", "histories"], "all coordinates and operation sequences",
     "One program times fixed operations.",
     [INC + "aligned_eigen_types.hpp"],
     [("arithmetic operators", INC + "aligned_eigen_types.hpp")],
     "differential oracle against a plain 3-vector under ASan/UBSan", SAN)

prop("C45", "ROS message serialization, trajectory joining and parameters lose nothing",
     "Any header, point, vector, quaternion, pose, transform, their stamped forms or whole message serialized to bytes and read back at its offset is the same message, consuming exactly the bytes written, even with other data before and after it, and truncated input is refused. Joining trajectories keeps every point of both in order, later points shifted by the end of the first, and refuses different joint names leaving the first untouched. Parameter lookups return the stored value, the given default, an empty optional or an error exactly when documented.",
     ["inputs", "histories"], "all messages, buffers, trajectories and parameter sets",
     "The code needs ROS and is not compiled by the tests.",
     [INC + "serialization_ros.hpp", SRC + "trajectory_utils.cpp", INC + "ros_helpers.hpp", INC + "moveit_ostream_operators.hpp"],
     [("message fields in order", INC + "serialization_ros.hpp"), ("append", SRC + "trajectory_utils.cpp"), ("GetParam*/GetVector*", INC + "ros_helpers.hpp")],
     "round-trip oracle under ASan/UBSan with stand-in message types", SAN + "; ROS headers replaced by plain stand-ins with roscpp's layout and semantics (stubs/cpp)")

prop("C46", "A C++ listener hands out only the latest message, safely across threads",
     "While messages arrive on a spinner thread, reading a listener from any number of threads never returns a message older than one it returned before, a torn one or one from another topic, returns nothing before the first message, and after quiescence returns the last one published. Waiting for a new message returns only one delivered after the wait began, or fails when the node shuts down. Listeners can be stopped, restarted and destroyed while messages arrive, and destroying one races with nothing.",
     ["inputs", "schedules", "histories"], "all interleavings of publisher, spinner, readers and destruction",
     "Needs ROS and concurrency; not compiled by the tests.",
     [INC + "listener.hpp"],
     [("callback and get share a mutex; destruction order", INC + "listener.hpp Listener")],
     "offline order checker over recorded reads under TSan and ASan", "real code under ThreadSanitizer and AddressSanitizer; ROS callback queue, spinner and subscription replaced by stand-ins with roscpp's ownership and blocking rules (stubs/cpp)")

PY = "real Python code run under CPython with stand-in ROS modules where imports need them"


prop("C36", "Python collection helpers match their definitions on every input",
     "Chunking, reverse chunking, last-element repetition, shorter-argument-repeating zip, uniqueness test, nested dictionary update, dictionary rounding and point-list conversion return exactly what a direct definition gives on every input: nothing lost, duplicated or reordered beyond what they state. Chunking consumes its input lazily, and only the nested update modifies an argument (its first).",
     ["inputs"], "all finite sequences, iterators, sizes and nested dictionaries in each helper's domain",
     "Existing tests use one or two fixed inputs each.",
     [SRC + "algorithms.py", SRC + "dict_tools.py", SRC + "numpy_conversions.py"],
     [("generator helpers", SRC + "algorithms.py")],
     "reference-definition oracle over recorded calls", PY)

prop("C37", "File-system helpers never destroy or overwrite what they should not",
     "The no-overwrite helper returns the given path if it is free and otherwise a path in the same directory, with the same extensions, that does not exist; tree removal deletes exactly the given tree and nothing outside it, including through symbolic links, and asks-first removal deletes nothing without consent. Counting, sizing, sub-directory listing and directory creation report exactly what exists. The command-line cleanup scripts offer and delete exactly the directories below the requested threshold.",
     ["inputs", "histories", "fault_sequences"], "all directory trees (including symbolic links, broken links, hidden and odd names), all answers",
     "One test covers one fixed set of names.",
     [SRC + "filesystem_utils.py", "scripts/remove_small_directories.py", "scripts/remove_directories_with_few_files.py"],
     [("no_overwrite_path, rm_tree, count_files_recursive, directory_size", SRC + "filesystem_utils.py")],
     "before/after file-tree diff monitor in scratch directories", PY + "; all effects confined to a scratch directory")

prop("C38", "Polynomial trajectories meet their boundary conditions",
     "Linear, quadratic and cubic trajectories start at the given position and velocity, end at the given position (and velocity for cubic) at the given time, have the stated degree, and report velocity and acceleration that are the exact derivatives of the position at every time, for scalars and arrays alike and without modifying their inputs.",
     ["inputs"], "all boundary values, durations, dimensions and query times",
     "Four tests check a few fixed values.",
     [SRC + "trajectory_planning.py"],
     [("coefficient formulas", SRC + "trajectory_planning.py")],
     "exact rational-arithmetic oracle over recorded evaluations", PY)

prop("C39", "Guarded calls catch exactly what they promise and always clean up",
     "A conditional call returns the function's result, or the fallback when and only when catching is on and the function raises an ordinary exception; otherwise the exception propagates. A call with a time limit returns the result and no-timeout flag, or reports a timeout for a call that overruns, propagates other exceptions, and never leaves an alarm armed; the retrying and skipping generators yield every item produced in time, in order, and nothing else.",
     ["inputs", "schedules", "fault_sequences"], "all result/exception/timing sequences of the guarded callables",
     "Three fixed tests for one helper; none for timeouts.",
     [SRC + "conditional_try.py", SRC + "catches.py"],
     [("try/except and alarm", SRC + "catches.py catch_timeout")],
     "event-trace monitor with virtual alarms and real timers", PY)

prop("C40", "Python path helpers stay on the path and respect lengths",
     "The closest-point query returns the nearest point of the polyline with the index and fraction that reproduce it; densifying keeps every waypoint in order, adds only points on the original segments and leaves no gap above the limit; travelling along a path stays on it and covers exactly the requested length unless an end is reached, in either direction. Path length is the sum of the segments, and reversing a trajectory (also an empty one) gives an independent copy with its points reversed and its timing mirrored from zero, the original unaltered.",
     ["inputs"], "all polylines (including repeated points), query points, distances and trajectories",
     "The existing tests need ROS and are not run here; they check a few fixed paths.",
     [SRC + "path_utils.py"],
     [("closest_point, densify, travel_along, reverse_trajectory", SRC + "path_utils.py")],
     "brute-force geometric oracle over recorded calls", PY)

prop("C41", "Python transform helpers obey rigid-motion algebra",
     "Composition and inversion of matrices, transforms and poses agree with homogeneous-matrix algebra, quaternion product, normalization, axis-angle and angle-between agree with rotation algebra (also for message types), and conversions among components, transforms, poses, matrices, spherical coordinates and Denavit-Hartenberg parameters are mutually consistent and round-trip. Inputs are not modified.",
     ["inputs"], "all rigid transforms, unit and non-unit quaternions (including nearly equal ones), points and D-H parameters",
     "The tests that exist need ROS and use very loose tolerances.",
     [SRC + "transformation_helper.py", SRC + "normalize_point_msg.py"],
     [("Compose*/Invert*/Build*/Extract* functions", SRC + "transformation_helper.py")],
     "homogeneous-matrix oracle over recorded calls", PY)

prop("C42", "Colour conversions invert and colour maps stay in range",
     "Conversions between RGB, XYZ, Lab and Msh are mutually inverse over the displayable colours. The jet and hot-to-cold maps return components within 0 and 1, every colour map hits its end colours (the cool-warm map except for the hue of a nearly grey end) and varies continuously over its range; clamped colours and colour messages preserve in-range components.",
     ["inputs"], "all displayable colours and all map parameters",
     "No existing test covers Python colours.",
     [SRC + "color.py"],
     [("conversion pairs and interpolators", SRC + "color.py")],
     "inverse-law and continuity oracle over recorded calls", PY)

prop("C43", "Message conversions accept every documented form and nothing else",
     "File sizes parse to the stated number of bytes for every quantity and unit and anything else is rejected with a value error; poses and positions given as lists, points, poses or stamped messages convert to the same pose; quaternions given as list or message are normalized to unit length in the same direction; unsupported forms raise errors.",
     ["inputs"], "all strings, lists and message forms",
     "The test that exists needs ROS and checks eight fixed strings.",
     [SRC + "conversions.py"],
     [("parse_file_size, convert_to_pose_msg, normalize_quaternion", SRC + "conversions.py")],
     "reference-grammar and equivalence oracle over recorded calls", PY)

prop("C44", "Listeners and transform broadcasters deliver the latest data under concurrency",
     "A listener returns a private copy of the most recently received message, waits for the first one when asked, and calls its user callback (which may itself read the listener) for every message, whatever the timing of arrivals relative to construction. A reliable broadcaster keeps sending exactly the latest transform for each parent/child pair until stopped, returns from starting only once that transform is visible even if look-ups fail meanwhile, and leaves no sender running after stop or close. Every transform is sent with the frames, values and static flag given, and each static message carries the latest value of every static frame sent so far exactly once.",
     ["schedules", "histories"], "all interleavings of message arrivals, queries, starts, replacements and stops",
     "The tests need ROS and are not run here.",
     [SRC + "listener.py", SRC + "reliable_tf.py", SRC + "tf2wrapper.py", SRC + "ros_helpers.py"],
     [("lock and deepcopy", SRC + "listener.py"), ("exit event and join", SRC + "reliable_tf.py")],
     "event-log monitor over stand-in ROS middleware with injected delays", PY)

prop("C49", "ROS helpers wait, connect, translate and clean up as promised",
     "Waiting returns only once its condition holds or ROS shuts down, and warns only after the given time; a connected publisher is returned only with all current subscribers connected and refused otherwise, and unconnected publishers are named in a warning or an error as requested. A program run in the ROS context starts with both nodes named as documented, gets its arguments, returns its value or error unchanged, and shuts both nodes down however it ends; joystick messages map to their named buttons and axes with the dead zone, and marker scaling touches only the scales.",
     ["inputs", "schedules"], "all conditions, connection histories, joystick messages and ways a program can end",
     "The tests need a running ROS master and sample two or three cases.",
     [SRC + "ros_helpers.py", SRC + "ros_init.py", SRC + "xbox.py", SRC + "marker_utils.py"],
     [("wait_for, get_connected_publisher, try_to_connect", SRC + "ros_helpers.py"), ("RosContext", SRC + "ros_init.py")],
     "event-log monitor over stand-in ROS middleware", PY)

prop("C50", "The C++ node initializer honours its arguments",
     "Initializing the C++ node passes on the name and the argument list, applies the requested log level (rejecting levels outside 0 to 4 before anything is initialized) and exactly the requested options for anonymous names, rosout and signal handling, and serves callbacks from then until shutdown.",
     ["inputs"], "all names, argument lists, log levels and combinations of the switches, by keyword, position or default",
     "The existing test needs a ROS master and starts one node with fixed arguments.",
     ["src/roscpp_initializer.cpp"],
     [("init_node, shutdown", "src/roscpp_initializer.cpp")],
     "call-log monitor over stand-in roscpp and pybind11, under ASan and UBSan", "real source compiled against stand-in ROS and pybind11 headers")
