I = ["inputs"]
IH = ["inputs", "histories"]

prop("C01", "Serialization round-trips every supported value exactly",
     "For every supported value (arithmetic types, strings, vectors, maps, pairs, Eigen vectors, matrices, quaternions and isometries, and nestings of these through user serializers) serializing appends to the buffer and returns the number of bytes appended, and deserializing at that position yields a bit-identical value and reports exactly that number of bytes consumed. This holds at any starting offset, with arbitrary data before and after the value, and for any sequence of values written back to back. Existing buffer contents are never modified.",
     ["inputs", "programs"],
     "all values (including NaN, infinities, empty and nested containers), all prefixes, all sequences of mixed types",
     "No test in the repository serializes anything; the round trip has to hold for every value, type nesting and offset.",
     [H + "serialization.hpp", S + "serialization.cpp"],
     [("Serialize*/Deserialize* pairs and MakeSerializer/MakeDeserializer wrappers", H + "serialization.hpp"),
      ("Eigen specific pairs", S + "serialization.cpp")],
     "generated typed values and sequences, round-trip and byte-count oracle",
     "Generated values of every public serializer, sequences at random offsets in surrounding data; compared bit for bit.")

prop("C02", "Deserializing damaged data is rejected cleanly, never unsafe",
     "Deserializing from a buffer that was truncated, corrupted or is arbitrary bytes, at any offset, either returns a value or throws an exception derived from std::exception: it never reads outside the buffer, aborts or hangs, and a value it returns can be used safely (grids, graphs and trees come back consistent). If the bytes that make up a value are truncated anywhere, deserialization throws. When it returns, the reported number of bytes consumed lies within the buffer.",
     I, "all byte strings, all truncation points and byte corruptions of valid buffers, hostile element counts, for basic values, containers, Eigen types, grids, graphs, planner trees and search results",
     "No test deserializes malformed input; the input space is every byte string.",
     [H + "serialization.hpp", S + "serialization.cpp", H + "voxel_grid.hpp", H + "dynamic_spatial_hashed_voxel_grid.hpp", H + "simple_graph.hpp", H + "simple_rrt_planner.hpp"],
     [("bounds checks before every read", H + "serialization.hpp"), ("size checks in Eigen deserializers", S + "serialization.cpp"),
      ("consistency checks of deserialized grids", H + "voxel_grid.hpp:DeserializeSelf")],
     "structure-aware mutation fuzzing under AddressSanitizer/UBSan, truncation enumeration",
     "Mutated valid buffers and raw bytes run under ASan+UBSan; every truncation point of a generated value is tried. Memory above 1 GB in one allocation counts as a clean bad_alloc.")

prop("C03", "Network serialization is big-endian and round-trips",
     "Network-order serialization of integers, floating point values, strings, and containers of them produces big-endian bytes independent of the host (the element count of a container included), reports the number of bytes appended, and deserializes to a bit-identical value reporting the same count. Host/network conversions of a value are inverse to each other. Truncated network data is rejected with an exception.",
     I, "all values of every supported width, including negative zero, NaN payloads and infinities, all containers of them and all truncations",
     "No test covers network serialization; byte order can be wrong for one width or for the count only.",
     [H + "serialization.hpp", S + "serialization.cpp"],
     [("HostToNetwork/NetworkToHost specialisations", S + "serialization.cpp"), ("SerializeNetwork*/DeserializeNetwork*", H + "serialization.hpp")],
     "generated values against an independently written big-endian encoder",
     "Every width compared with a reference encoder; round trip and truncation.")

prop("C04", "Base64 encoding matches RFC 4648 and decoding inverts it",
     "Encoding any byte string yields its RFC 4648 base64 text with padding, and decoding that text returns the original bytes. Decoding also accepts the URL-safe alphabet and text without padding. Decoding any other text never accesses memory outside the text and gives a result that depends only on the text.",
     I, "all byte strings of all lengths; all character strings, valid or not",
     "The repository has no base64 test; correctness depends on length modulo 3, on every symbol, and on characters outside the alphabet.",
     [S + "base64_helpers.cpp"], [("Encode", S + "base64_helpers.cpp"), ("Decode and its lookup table", S + "base64_helpers.cpp")],
     "generated bytes against a bitwise reference encoder, fuzzed text under sanitizers",
     "Reference encoder written from the RFC; hostile text runs under ASan+UBSan.")

prop("C05", "Zlib compression is lossless in memory and through files",
     "Decompressing the compressed form of any byte string returns it exactly, whatever its length or compressibility, and the compressed form is standard zlib data that any zlib reads (and the decompressor reads any zlib data). Writing to a file and loading it returns the same bytes; if the data could not be written completely, or the file cannot be read, an exception is thrown. Truncated or corrupted compressed data is rejected with an exception instead of returning wrong bytes.",
     ["inputs", "fault_sequences"], "all byte strings including those around and above the internal buffer size; all truncations and corruptions; write failures such as a missing directory, a full device or a file size limit",
     "No test covers compression; buffer boundaries and failed writes are not reached.",
     [S + "zlib_helpers.cpp"], [("CompressBytes/DecompressBytes loops", S + "zlib_helpers.cpp"), ("file helpers", S + "zlib_helpers.cpp")],
     "generated data around buffer boundaries, differential against zlib itself, injected write failures",
     "Differential with zlib's one-shot API; file faults through /dev/full, missing directories and RLIMIT_FSIZE in a forked worker.")

prop("C06", "Voxel grid cell addressing is a consistent bijection",
     "For any valid grid sizes and origin pose, the conversions between in-bounds cell indices and data positions are inverse bijections onto 0..total-1; every cell's centre is where cell sizes, index and origin pose put it, and the centre and any point clearly inside a cell map back to that cell, while points clearly outside map to no cell. Queries by index triple, coordinates, vector or homogeneous vector, in the world or grid frame, agree with each other; outside the grid every query returns no value and every write is refused, both with out-of-bounds status. The number of cells per axis is the least that covers the requested extent, reported sizes equal count times cell size, and sizes that are not positive and finite, or whose cell count is beyond the range of indices, are rejected.",
     ["inputs", "configurations"], "all grid sizes (cubic or not, from cell sizes or counts), all origin poses, all indices and locations, including cell boundaries and far outside",
     "Tests look up a few indices in two small axis-aligned grids; the mapping has to hold for every size, pose and location.",
     [H + "voxel_grid.hpp"], [("GridSizes index arithmetic and location mapping", H + "voxel_grid.hpp:GridSizes"), ("origin transform handling", H + "voxel_grid.hpp:VoxelGridBase")],
     "generated grids, poses and locations against an independent index model",
     "Independent arithmetic for the mapping; points within rounding distance of a cell boundary accept either neighbour.")

prop("C07", "A voxel grid behaves like an array of cells under any history",
     "After any sequence of sets, mutable accesses, raw data accesses, resets, copies, clones, moves, assignments and re-initialisations, every cell of a dense voxel grid reads back the value last written to it and every other cell keeps its value, also when the value written was a reference to another cell; copies are independent of the original. Out-of-bounds writes change nothing and report failure; access callbacks of derived grids see exactly the index about to be modified and can forbid the change, which is then reported and has no effect. Serializing then deserializing a grid, also onto a grid with other contents, reproduces its sizes, pose, default and out-of-bounds values and every cell.",
     IH, "all operation histories on grids of any shape, cell type and pose",
     "Tests write and read a fixed pattern once; aliasing between cells, callbacks and copy or serialization histories are not sampled.",
     [H + "voxel_grid.hpp"], [("SetIndex/SetLocation/GetMutable and On*Access hooks", H + "voxel_grid.hpp"), ("SerializeSelf/DeserializeSelf", H + "voxel_grid.hpp")],
     "stateful model-based testing against a plain array",
     "Whole grid compared with the model after every few operations.")

prop("C08", "A chunked sparse voxel grid behaves like a map of cells and chunks",
     "After any sequence of cell writes, chunk writes, mutable accesses, chunk erasures, copies, clones, moves and changes of default or pose, querying any location of a spatially hashed voxel grid yields the value last written to its cell (or to its whole chunk, if that was written later), the default at the time the chunk was created for unwritten cells of a chunk that has been written to, and not-found everywhere else; the reported status tells cell from chunk values. A write to any finite location succeeds unless a callback of a derived grid (which sees that location in the grid frame) forbids it, whatever the coordinates (negative, on a chunk or cell boundary, far from the origin), and affects only that cell or chunk; forbidden writes and writes to non-finite locations change nothing. Serializing and deserializing reproduces all contents, sizes and pose.",
     IH, "all operation histories over all locations, cell and chunk sizes (including ones that are not exactly representable) and origin poses",
     "Tests write a small fixed pattern; boundary locations, mixed cell and chunk writes, and copy or erase histories are not sampled.",
     [H + "dynamic_spatial_hashed_voxel_grid.hpp"], [("chunk base/cell mapping", H + "dynamic_spatial_hashed_voxel_grid.hpp"), ("chunk fill states", H + "dynamic_spatial_hashed_voxel_grid.hpp:DynamicSpatialHashedVoxelGridChunk")],
     "stateful model-based testing against an ordered map",
     "Model keyed by cell and chunk index; locations within rounding distance of a boundary accept either neighbouring cell but must succeed.")

prop("C09", "Parallel loops execute every index exactly once",
     "For any index range and any requested degree of parallelism, every parallel loop (static or dynamic, per range or per item, on either thread backend) calls the functor so that each index of the range is covered exactly once and no other index is, and returns only after all calls have finished with their effects visible. Every call receives a worker number below the degree of parallelism, and calls that run at the same time have different worker numbers. If calls throw, the loop still waits for the others and an exception reaches the caller.",
     ["inputs", "schedules", "configurations", "fault_sequences"], "all ranges (empty, negative, smaller than the thread count, offset), all degrees of parallelism, all backends, functors of any duration, throwing functors",
     "Tests run fixed ranges with all threads; uneven partitions, narrow ranges, worker-number uniqueness and exceptions depend on range, thread count and schedule.",
     [H + "parallelism.hpp", H + "openmp_helpers.hpp"], [("static range partition and dynamic work distribution", H + "parallelism.hpp"), ("degree of parallelism helpers", H + "openmp_helpers.hpp")],
     "generated ranges, thread counts, delays and faults; coverage counters and overlap detection; ThreadSanitizer build for the async backend",
     "Schedules are perturbed by generated delays, not enumerated; race detection covers the std::async backend only, because libgomp is not instrumented.")

prop("C10", "K-nearest-neighbour queries equal brute force",
     "A K-nearest-neighbour query over any items and distance function, optionally restricted to a sub-range of the items, returns min(K, number of items in the range) distinct item indices from the range, each with its correct distance, in nondecreasing order of distance whenever any item is left out, and no item left out is closer than one returned. The serial and parallel forms give the same distances, for every degree of parallelism and also when called from inside other parallel code. K of zero gives no results; negative K and ranges outside the items are rejected.",
     ["inputs", "configurations", "schedules"], "all item sets (including ties, fewer items than K, empty ranges), all K, all ranges, all thread counts and nesting",
     "Only one fixed random set is compared with brute force in the tests; ties, sub-ranges and thread counts are not.",
     [H + "simple_knearest_neighbors.hpp"], [("GetKNearestNeighborsInRangeSerial/Parallel and merge", H + "simple_knearest_neighbors.hpp")],
     "differential testing against a sort-based brute force",
     "Any tie order is accepted; distances must match exactly.")

prop("C11", "Graphs keep incoming and outgoing edges consistent",
     "After any sequence of node and edge additions through the graph's own operations, every edge added is recorded once as an outgoing edge of its source and once as an incoming edge of its target, with the weight it was given, in the order added, and the consistency check accepts the graph; adding a self-edge or an edge to a node that does not exist is rejected and changes nothing. The check accepts a graph exactly when every recorded edge joins two different existing nodes, leaves or enters the node that records it, and is also recorded at its other end. Pruning removes exactly the requested nodes (requested nodes that do not exist are ignored) and their edges and keeps every other node, its value and its edges, renumbered consistently; copying, serializing and overlay views preserve all nodes, values, edges and weights, and changes made to an overlay never alter the graph underneath.",
     IH, "all construction histories, all prune sets, all overlays, all corruptions of a valid graph",
     "Tests build only small fixed graphs through planners; linkage after prune, overlay and serialization histories is not sampled.",
     [H + "simple_graph.hpp"], [("AddEdge*/AddNode", H + "simple_graph.hpp:Graph"), ("PruneGraph", H + "simple_graph.hpp"), ("CheckGraphLinkage", H + "simple_graph.hpp"), ("NonOwningGraphOverlay", H + "simple_graph.hpp")],
     "stateful model-based testing against an adjacency map, mutation of valid graphs",
     "Model compared node by node; corruptions are generated by class.")

prop("C12", "A* search returns a valid, cost-optimal path or none",
     "A* search returns a path exactly when a goal can be reached: the path leads from a start to a goal through valid edges only. With an admissible heuristic its reported cost is the sum of its edge costs plus its start cost, and no cheaper such path exists; with any other heuristic the reported cost is never below the cost of the returned path or the optimum; a start that itself satisfies the goal is returned at once, the cheapest such start. This holds with and without limiting duplicates in the queue, for searches over states, over a graph's stored edge costs (infinite ones are never used) and with lazily evaluated edges, and for several starts and goals; empty starts, indices outside the graph and negative costs are rejected.",
     ["inputs", "configurations"], "all finite graphs with nonnegative costs, all start and goal sets, all heuristics, both queue modes, all state types, hashes and containers",
     "Tests run A* on one small grid and one graph; optimality must hold for every graph, heuristic and option combination.",
     [H + "simple_astar_search.hpp", H + "simple_graph_search.hpp"], [("PerformAstarSearch queue, explored set and solution extraction", H + "simple_astar_search.hpp"), ("PerformLazyAstarSearch/PerformAstarSearch on graphs", H + "simple_graph_search.hpp")],
     "generated graphs and heuristics against Bellman-Ford",
     "Integer-valued costs are used so that equality of costs is exact.")

prop("C13", "Dijkstra distances and predecessors are exact",
     "For every graph with nonnegative edge weights and every start index, the distance reported for each node is the minimum over all directed paths from that node to the start of the summed weights, infinite when there is none. Following the reported predecessors from any reachable node leads to the start along existing edges whose weights add up to the reported distance. The result can be serialized and restored without change, and a start outside the graph or a result with mismatched lengths is rejected.",
     I, "all directed and undirected graphs with nonnegative, zero or infinite weights, disconnected ones included, all start nodes",
     "Tests check one small graph; distances must be right for every graph.",
     [H + "simple_graph_search.hpp"], [("PerformDijkstrasAlgorithm", H + "simple_graph_search.hpp"), ("DijkstrasResult serialization", H + "simple_graph_search.hpp")],
     "generated graphs against Bellman-Ford",
     "Integer-valued weights for exact comparison.")

prop("C14", "Roadmap construction only ever records valid, correct edges",
     "Growing, building, extending or updating a roadmap with any sampler, distance and validity functions yields a consistent graph in which every edge joins two states the user's edge check accepts in that direction with the weight the user's distance function gives in that direction (infinite after an update that finds the edge invalid). Each state added is connected to its K nearest states (in the direction asked for) exactly where the edge check accepts; all states added by growing or building are ones the sampler produced and the validity check accepted, a state at distance zero from a neighbour is added only when duplicates are wanted, existing nodes are never altered, and building yields the requested number of states or fails when it runs out of tries. Serial and parallel operation produce the same roadmap from the same samples, up to ties between equally distant neighbours, and neighbour providers that return indices out of range are rejected.",
     ["inputs", "histories", "configurations", "schedules"], "all environments, symmetric and asymmetric distance and validity functions, all neighbour counts, connection modes, duplicate handling, serial and parallel operation",
     "Tests grow a roadmap in one small world with symmetric distances only.",
     [H + "simple_prm_planner.hpp"], [("AddNodeToRoadmap", H + "simple_prm_planner.hpp"), ("GrowRoadMap/BuildRoadMap/UpdateRoadMapEdges/ExtractSolution", H + "simple_prm_planner.hpp")],
     "generated worlds and callbacks, roadmap re-validated edge by edge",
     "Random lattice worlds with direction-dependent costs and obstacles.")

prop("C15", "Roadmap queries return valid shortest paths, leave roadmap as is",
     "A roadmap query (eager or lazy, through an overlay or a copy, single or multiple starts and goals) connects the starts and then the goals to their K nearest states and returns a path that begins at a start, ends at a goal, and uses only edges so obtained or stored in the roadmap: for eager queries those stored with a finite weight, for lazy queries those the edge check accepts, at the length the distance function gives. The reported length is the sum of its edge lengths and, for distances that obey the triangle inequality and are not above the stored weights, no longer than that of any other such path; if none exists the query reports failure. Querying never changes the roadmap unless the query is documented to add the start and goal states, and then it adds just those and their edges.",
     ["inputs", "configurations"], "all roadmaps, starts, goals, neighbour counts, heuristics, lazy or eager evaluation, parallel or serial",
     "Tests query one small world and only check that a path comes back.",
     [H + "simple_prm_planner.hpp", H + "simple_graph_search.hpp"], [("QueryPath/LazyQueryPath and overlay variants", H + "simple_prm_planner.hpp")],
     "generated roadmaps, differential against brute-force connection plus Bellman-Ford",
     "The expected augmented graph is built independently.")

prop("C16", "RRT and bidirectional RRT solutions are valid chains of extensions",
     "Every path a single- or bidirectional-tree planner returns starts at a root of the start tree, ends at a state satisfying the goal (for bidirectional planning at a root of the goal tree), and each consecutive pair of states is a parent and child of a tree, produced by the user's propagation or connection functions. The trees left behind are consistently linked, contain the original nodes unchanged and exactly the states the user's functions produced (as modified by the state added callback), in order and linked to the parents those functions named; a parent outside of what was produced is rejected. Planning goes on until termination is signalled and stops then, or with the first solution when one path is asked for; every solution found is returned, in the order found, goals among the original nodes included, and the reported statistics count what happened; a negative nearest neighbour ends planning, empty trees and missing functions are rejected, and optional callbacks may be empty.",
     ["inputs", "configurations", "histories"], "all samplers, propagation functions (including empty, long, branching and failing ones), goal callbacks, termination conditions, tree containers, serial neighbours or not",
     "Tests plan in one fixed world with a single propagation pattern.",
     [H + "simple_rrt_planner.hpp"], [("RRTPlanMultiPath and tree insertion", H + "simple_rrt_planner.hpp"), ("BiRRTPlanMultiPath, swap and connect logic", H + "simple_rrt_planner.hpp"), ("ExtractSolution", H + "simple_rrt_planner.hpp")],
     "scripted random callbacks with recorded history; trees and paths replayed against it",
     "Callbacks are adversarial but legal; every returned state is traced to the call that produced it.")

prop("C17", "RRT tree containers, forward propagation and helpers are sound",
     "Planner trees keep parent and child links consistent under any sequence of additions (connecting to a missing parent is rejected and changes nothing), serialize and deserialize without change, and the consistency check accepts exactly the trees in which parents come before their children, both ends of each link agree, and roots have negative parents. The ready-made extend and connect propagation functions move from the nearest node towards the target in steps no longer than the step size, stop at the first invalid step, never pass the target, and link the new states as a chain from the nearest node. The ready-made sampling, tree-selection, goal and timeout helpers choose by comparing each draw with the given probability, the nearest-neighbour helper gives a node of least distance, serially or in parallel, and invalid step sizes, probabilities, timeouts or empty goals are rejected; distances and states of a robot model follow from the functions that the model overrides.",
     IH, "all trees and corruptions of them, all start and target states, step sizes and validity functions, all sampler values and biases",
     "Tests only exercise helpers indirectly through one planning problem.",
     [H + "simple_rrt_planner.hpp", H + "simple_robot_model_interface.hpp"], [("SimpleRRTPlannerTree", H + "simple_rrt_planner.hpp"), ("MakeRRTExtend/Connect helpers", H + "simple_rrt_planner.hpp"), ("linkage check and tree serialization", H + "simple_rrt_planner.hpp")],
     "model-based testing of trees, reference computation of propagation",
     "Vector-space robots with generated obstacle functions.")

prop("C18", "Task planning selects valid, cost-minimal policies and executes them",
     "For any set of action primitives with ranked outcomes, the task planner's policy choice at a state is a primitive that is a candidate there and leads towards a goal with the least cost among those available, counting for each primitive the best outcome it may have; planning from a state fails with an error exactly when no goal is reachable, and a start that is a goal needs no action. Execution only ever performs primitives on states they accept, goes on from whichever of the actual outcomes is cheapest to finish from, calls the given callbacks in order with what happened, stops exactly when a goal is reached or the limit on steps is hit, and returns the states on which decisions were made, in order, together with the reached goal. Duplicate outcomes, ties and cycles do not change these guarantees; primitives with the same name, or without an outcome when performed, are rejected.",
     ["inputs", "histories", "configurations"], "all finite task models, rankings, state hashes and equalities, nondeterministic outcomes and step limits",
     "Tests plan one small toy domain.",
     [H + "simple_task_planner.hpp"], [("PlanTaskStateSequence", H + "simple_task_planner.hpp"), ("PerformSingleTaskExecution", H + "simple_task_planner.hpp")],
     "generated task models against exhaustive shortest-path search and recorded executions",
     "Finite state models; costs integer valued.")

prop("C19", "Path smoothing, shortcutting and resampling keep paths valid",
     "Shortcut smoothing keeps the first and last state of the path, never makes the path longer by the given distance function, keeps retained states in order, and every edge it introduces was accepted by the edge validity check itself or (when resampling without checking for marginal edges) lies within such an edge, so a valid path stays valid, for any resampling settings; introduced edges are no longer than the resampling distance. A shortcut that is not valid falls back to its halves up to the given depth, and smoothing stops at its limits on iterations, failures and shortcuts; resampling keeps all original states in order, places new states evenly on the segment between their neighbours, using the least number of steps that leaves none longer than the requested distance. Helpers that judge a path report whether all, or which share, of its edges or states are valid; invalid parameters are rejected and paths too short to change come back unchanged.",
     ["inputs", "configurations"], "all paths, validity functions, step limits, biases and random sequences",
     "Tests smooth one path in one world and check only that it succeeds.",
     [H + "path_processing.hpp"], [("ShortcutSmoothPath and AttemptShortcut", H + "path_processing.hpp"), ("ResamplePath", H + "path_processing.hpp")],
     "generated paths and validity functions, invariants on the result and recorded edge checks",
     "Vector-space states with generated obstacle sets.")

prop("C20", "Directed Hausdorff distance equals its definition in every form",
     "For any two non-empty distributions and distance function, the computed distance is the largest, over the elements of the first, of the smallest distance to an element of the second. The function, distance-matrix, serial and parallel forms give the same result for every degree of parallelism, and swapping serial for parallel never changes the answer. Empty distributions and distance matrices of the wrong size are rejected with an exception.",
     ["inputs", "configurations", "schedules"], "all distributions, asymmetric and degenerate distance functions or matrices, all thread counts",
     "Tests compare forms on one pair of fixed random sets.",
     [H + "simple_hausdorff_distance.hpp"], [("ComputeDistanceSerial/Parallel", H + "simple_hausdorff_distance.hpp")],
     "differential testing against the definition and between forms",
     "Exact comparison: only minima and maxima of the same numbers are involved.")

prop("C21", "Dynamic time warping cost is the true optimum",
     "For any two non-empty sequences and nonnegative distance function, the computed cost is the minimum, over all monotone alignments that start at both beginnings, end at both ends and never skip an element, of the summed distances along the alignment. Reusing one evaluator for many pairs of sequences, in any order and of any lengths, gives the same answers as a fresh evaluator, also after an evaluation that was cut short because the distance function threw. Sequences with an empty side are rejected with an exception.",
     IH, "all sequence pairs, distance functions (ties included) and histories of reuse",
     "No test covers time warping; ties and reuse across lengths decide the result.",
     [H + "simple_dtw.hpp"], [("EvaluateWarpingCost recurrence and matrix initialisation", H + "simple_dtw.hpp")],
     "differential testing against recursive enumeration of alignments",
     "Integer-valued distances, exact comparison; exhaustive alignment enumeration for short sequences.")

prop("C22", "Hierarchical clustering partitions items within the distance bound",
     "Clustering puts every item into exactly one cluster. Single-link clusters are exactly the connected components of the graph joining items no further apart than the bound; complete-link clusters contain no two items further apart than the bound, no two of them could be merged without exceeding it, and they are those that arise by always joining the closest two clusters (unique without ties). The serial, parallel, function and distance-matrix forms produce the same clusters for every degree of parallelism, pairwise distance matrices hold the distances, and the reported distance is the greatest at which clusters were joined (zero if none were); empty data and distance matrices that are not square or do not fit the data are rejected.",
     ["inputs", "configurations", "schedules"], "all item sets, symmetric distance functions with ties, bounds, strategies and thread counts",
     "No unit test covers clustering results; they are only run in an example.",
     [H + "simple_hierarchical_clustering.hpp"], [("Cluster, GetClosestClusters*", H + "simple_hierarchical_clustering.hpp")],
     "generated distance matrices against union-find and definitional checks",
     "Integer-valued distances, exact comparison.")

prop("C23", "K-means assigns every item to its nearest cluster mean",
     "K-means returns one label below the number of clusters for every item, and it runs to convergence: each item's label is that of the cluster whose mean (by the user's averaging function over the cluster's final items, with their own weights) is nearest. Clusters start from distinct items of the data unless preliminary clustering is asked for, and the averaging function only ever sees items of the data together with their weights. Results are deterministic for a given seed and the same for serial and parallel operation; one cluster gives label zero everywhere, no data gives no labels; zero clusters, more clusters than items, and labels or weights that do not match the items are rejected.",
     ["inputs", "configurations", "schedules"], "all data sets with distinct items, cluster counts, seeds, initialisation choices, weights and thread counts",
     "No unit test covers k-means.",
     [H + "simple_kmeans_clustering.hpp"], [("Cluster, initial means, label update and convergence test", H + "simple_kmeans_clustering.hpp")],
     "generated data, fixpoint validity predicate, serial/parallel differential",
     "Any fixpoint is accepted. An averaging function that rejects empty clusters is a listed finding when it applies.")

prop("C24", "Revolute angle arithmetic is exact modulo full turns",
     "Enforcing revolute bounds maps any finite angle to an equivalent angle in [-pi, pi]; signed distance between two angles is the equivalent rotation of least magnitude with the sign that carries the first to the second, the unsigned distance its magnitude, symmetric and at most pi, and adding angles gives the bounded sum. Interpolation starts at the first angle, ends at the second modulo a full turn, travels along the shorter way and proportionally to the ratio, which is clamped to [0, 1]. The positive range from one angle to another is the rotation in [0, 2 pi] that carries the first to the second in the positive direction; an angle is inside a range exactly when the positive rotation from its start is no larger than the range, the start is always inside, a negative range contains nothing, and the check of angles against bounds agrees with this.",
     I, "all finite angles including multiples of pi, tiny offsets around them and large values, all ratios",
     "Tests check a table of angles; the guarantees are for every angle, including wrap-around neighbours.",
     [S + "math.cpp", H + "math.hpp"], [("EnforceContinuousRevoluteBounds, ContinuousRevoluteSignedDistance, InterpolateContinuousRevolute", S + "math.cpp")],
     "generated angles, algebraic laws and reference computation in long double",
     "Tolerance scaled to the magnitude of the angles.")

prop("C25", "Rigid-body motion algebra is internally consistent",
     "Skew and unskew, twist hat and unhat are inverse pairs; adjoints act as conjugation (the adjoint of a product is the product of adjoints, that of the inverse is the inverse); the exponential of a twist is a rigid transform that agrees with the matrix exponential, exponents of the same twist add up, the logarithm gives the twist back for rotations below a half turn, relative twists carry one pose to another, and the exponential along a unit axis rejects axes that are not. Distances between rotations are the angle between them, and between poses its combination with the distance of translations by the given (clamped) weight. Interpolating numbers, vectors, quaternions and poses starts at the first, ends at the second (exactly), moves along the shortest rotation at constant rate, clamps the ratio to [0, 1] and rejects values of different lengths.",
     I, "all rotations (tiny, near half a turn, identity), all translations, twists and times",
     "No test covers these functions.",
     [S + "math.cpp", H + "math.hpp"], [("TwistHat/TwistUnhat/AdjointFromTransform/ExpTwist/Logs", S + "math.cpp"), ("Interpolate*", S + "math.cpp")],
     "generated poses and twists, algebraic identities and numeric matrix exponential",
     "Tolerances scaled to the data; rotations within 1e-3 of a half turn are only checked for finite results.")

prop("C26", "Vector projections, averages and geometric helpers are correct",
     "Projection and rejection of a vector split it into a parallel and an orthogonal part that sum to it; orthogonal-vector helpers return vectors that are truly orthogonal, or throw when there is none; angles between vectors, weighted or not, distances to planes, fitted planes (through the centroid, with the least spread) and projections onto them equal their geometric definitions. Averages and weighted averages of numbers, vectors, rotations and poses equal the reference mean (weights enter by magnitude; the rotation maximises the weighted sum of squared dot products), are independent of item order, reproduce a common value, and reject empty or mismatched input and weights that are all zero. Weighted norms, dot products and standard deviations satisfy their definitions, element-wise arithmetic and comparisons of vectors treat each element alone and reject different lengths, norms are clamped without a change of direction, linear, bilinear and trilinear interpolation reproduce multilinear functions, and distance matrices hold every pairwise distance, serially or in parallel.",
     I, "all finite vectors, including axis-aligned, tiny and nearly parallel ones; all weights; all collections",
     "No test covers these functions.",
     [S + "math.cpp", H + "math.hpp"], [("VectorProjection/VectorRejection, GetArbitraryOrthogonalVector", H + "math.hpp"), ("Average*, Weighted*", H + "math.hpp"), ("Average* for Eigen types", S + "math.cpp")],
     "generated vectors, definitions recomputed in long double",
     "Tolerances scaled to the data.")

prop("C27", "Pose, rotation and vector conversions are mutually consistent",
     "Quaternions from roll, pitch and yaw (body X, Y, Z order, and the fixed-axis order of URDF), XYZ Euler angles in [-pi, pi] of matrices, quaternions and isometries, isometries from translation and rotation or angles, and six-vectors of translation and angles preserve the rotation and translation: converting there and back gives the same transform, and all routes to the same representation agree. Conversions of standard vectors to Eigen vectors or quaternions (x, y, z, w) and back keep every element and its order, and inputs of the wrong length are rejected.",
     I, "all rotations (near gimbal lock included), translations and containers",
     "No test covers conversions.",
     [S + "conversions.cpp", H + "conversions.hpp"], [("Quaternion/EulerAngles/Isometry conversions", S + "conversions.cpp")],
     "generated rotations against an independent rotation-matrix computation, round trips",
     "Quaternions compared up to sign; tolerance 1e-9 scaled.")

prop("C28", "Time-parametrized trajectories follow the path within all limits",
     "Parametrizing any path of distinct waypoints (immediate repetitions are ignored) gives a trajectory that starts and ends at rest exactly at the path's ends, stays within the allowed deviation of the path, keeps position continuous and visits it in order, and at every time within its duration keeps each joint's velocity within its limit and, except where a corner is not rounded off or by a rounding tiny compared to the time step, the change of velocity over any window of time within the acceleration limit up to a few time steps' worth. Its duration is within a few percent of the least possible along the rounded path; velocity and acceleration reported at a time are the derivatives of the reported positions. Joints that do not move may have limits of zero; invalid arguments (fewer than two distinct waypoints, mismatched sizes, values that are not finite, negative limits, zero limits of joints that move, nonpositive time steps) are rejected, and it may only give up, with an exception, on roundings tiny compared to the time step, on paths that turn back, or where its numerical integration fails for the given time step but not for others; copies answer every query exactly as the original does, independently of each other and of query order.",
     ["inputs", "histories"], "all paths of distinct waypoints in any dimension, limits, deviations, time steps and query histories",
     "No unit test covers trajectory parametrization; limits have to hold at every instant of every trajectory.",
     [S + "time_optimal_trajectory_parametrization.cpp", H + "time_optimal_trajectory_parametrization.hpp"], [("Path with circular blends", S + "time_optimal_trajectory_parametrization.cpp"), ("Trajectory integration and query cache", S + "time_optimal_trajectory_parametrization.cpp")],
     "generated paths and limits, trajectories sampled densely against invariants",
     "Tolerances account for the integration step. Corners of nearly a half turn are outside of the domain of the limits: they are passed at speed, which is a listed finding.")

prop("C29", "Optional and tagged-union values never mix up what they hold",
     "After any sequence of construction, assignment, copy, move and reset, an optional or tagged union holds exactly what was last stored, reports that alternative and no other, and rejects access to an alternative it does not hold; copies are independent and moved-from ones stay usable. Every object constructed inside is destroyed exactly once, also when a copy or move of the held value throws, after which the optional holds its previous value or nothing; self-assignment keeps the value, and assigning a part of the own value works. A borrowed optional refers to the very object it was given.",
     IH + ["fault_sequences"], "all operation histories over held types with nontrivial lifetime, exceptions at any copy or move",
     "Tests cover a short fixed sequence of operations; lifetime balance needs arbitrary histories and faults.",
     [H + "maybe.hpp"], [("OwningMaybe/ReferencingMaybe", H + "maybe.hpp"), ("TaggedUnion construct/destroy dispatch", H + "maybe.hpp")],
     "stateful model-based testing with lifetime-counting, throwing payloads under sanitizers",
     "Model of expected contents; live-object ledger checked after every operation.")

prop("C30", "General utilities honour their contracts for every input",
     "Clamping returns the nearest value in range, and spreading moves values strictly between two thresholds to the one on their side of the midpoint; both report through the logger exactly when they change the value, and reject impossible ranges; getting and setting bits touches only the bit asked for. Subset and equality tests of collections count duplicates and ignore order, key and value helpers return exactly the elements asked for (later entries win, different counts are rejected), and substring tests require every string to contain the pattern; random index and range helpers map one draw from [0, 1) to a value in range, for every type and range, giving each value an equal share, and reject empty ranges. Atomic wrappers copy and move their value and lose no update, scope-exit actions run exactly once on every way out of a scope unless released, alignment tests match the address, asking whether a future is ready does not disturb it, and hashes of equal values are equal while every field matters.",
     ["inputs", "histories", "schedules"], "all values, containers, predicates and scope exit paths",
     "Tests cover a handful of calls.",
     [H + "utility.hpp"], [("utility functions", H + "utility.hpp")],
     "generated inputs against standard-library reference computations",
     "Definitions recomputed independently.")

prop("C31", "Random generators are reproducible and in range",
     "The pseudo-random generators produce exactly their published sequences for a given seed, reseeding restarts the same sequence as a fresh generator, discarding n values equals drawing n values, and copies continue identically, for any interleaving of these operations. Random rotations are unit quaternions, or Euler angles with roll and yaw in [-pi, pi] and pitch within a full turn, that depend only on the generator's draws and are uniformly distributed over all rotations; the raw forms hold the same numbers in order x, y, z, w.",
     IH, "all seeds, including zero and all ones, all histories of draws, discards, reseeds and copies",
     "No test covers the generators.",
     [H + "simple_prngs.hpp", H + "random_rotation_generator.hpp"], [("SplitMix64PRNG/XorShift128PlusPRNG/XorShift1024StarPRNG", H + "simple_prngs.hpp"), ("RandomRotationGenerator", H + "random_rotation_generator.hpp")],
     "stateful testing against independently written reference generators",
     "Reference sequences re-implemented from the published algorithms.")

prop("C32", "Colour construction and interpolation are correct and bounded",
     "Colours built from integer (hexadecimal) or floating-point channels, or both, carry the requested channel values with out-of-range ones clamped to [0, 1] and alpha defaulting to one; reading, setting and converting to other colour types keeps them, hexadecimal values survive the way there and back, and floating-point channels round to the nearest hexadecimal value. Colours are equal exactly when no channel differs by more than the tolerance; the hot-to-cold map is linear between blue, cyan, green, yellow and red at equal distances over the range, clamps values outside and rejects ranges with ends the wrong way round; its channels are always in range. Unique-colour codes up to 20 have pairwise different colours, code zero is transparent, later ones are black, and others carry the requested alpha.",
     I, "all channel values, ratios and colour codes, out of range values included",
     "No test covers colours.",
     [H + "color_builder.hpp"], [("MakeFromFloatColors/MakeFromMixedColors/InterpolateColor/LookupUniqueColor", H + "color_builder.hpp")],
     "generated channels and ratios against reference formulae",
     "Single precision tolerance.")

prop("C33", "Printing renders every element of every supported container",
     "Printing a supported value (numbers, strings, streamable types, pairs, sequences, sets, maps, Eigen vectors, matrices, quaternions and transforms, nested to any depth) yields text in which every element appears once, in the container's iteration order, separated by the given separator, with pairs as first: second, and, when delimiters are asked for, bracketed at every level: [] for sequences, () for sets, {} for maps, <> for pairs; empty containers print nothing. Booleans print as true and false, bytes as numbers, Eigen types with their name and twelve digits. The text depends only on the value, the delimiters and the separator.",
     ["inputs", "programs"], "all supported containers, nestings, sizes (empty included) and delimiters",
     "Print tests are not part of the build's stable tests.",
     [H + "print.hpp"], [("Print overloads", H + "print.hpp")],
     "generated nested containers against a reference renderer",
     "Reference renderer written from the documented format.")

prop("C34", "Gaussian distributions match their definitions and bounds",
     "The density, distribution function and integral of gaussian and truncated gaussian distributions equal their mathematical definitions, with zero density outside of the bounds and limits or bounds the wrong way round rejected. Values drawn from a truncated gaussian always lie within the bounds, follow the truncated distribution wherever the bounds are (around the mean, on either side of it, far from it, close together, one or both infinite), come in bounded time, and are the mean when there is no deviation. Values drawn from a multivariate gaussian have its mean and covariance, of full rank or not, in any number of dimensions, every draw depends only on the generator, and covariances of another size than the mean, or that are not finite, are rejected.",
     IH, "all means, deviations, bounds, covariances of any rank, generators and numbers of draws",
     "No test includes the header, which did not compile.",
     [H + "gaussian_distributions.hpp"], [("TruncatedGaussianDistribution/MultivariteGaussianDistribution", H + "gaussian_distributions.hpp")],
     "generated parameters; extended-precision reference functions and goodness-of-fit of samples",
     "Departures of the sampled distribution below about one percent in a case are not seen; bounds that enclose less than 1e-9 are excluded for the functions.")

prop("C35", "ROS messages convert to and from Eigen types without change",
     "Points, vectors, quaternions, poses and transforms convert between ROS messages and Eigen types with every coordinate in the field of its name: translations are unchanged, rotations are the same rotation, points become homogeneous positions (fourth coordinate one) and vectors directions (zero), and stamped messages carry exactly the frames given. Converted containers have the same size and order. Setting the timestamps of messages or of a marker array sets the time of every message and nothing else.",
     ["inputs", "configurations"], "all finite coordinates, unit quaternions, frames and sizes of containers, for both versions of ROS",
     "No test covers the conversions, and the ROS parts are not built at all.",
     [H + "ros_conversions.hpp", S + "ros_conversions.cpp", H + "ros_helpers.hpp"], [("GeometryPoseToEigenIsometry3d and others", S + "ros_conversions.cpp"), ("SetMessageTimestamps", H + "ros_helpers.hpp")],
     "generated values against field-by-field reference conversions",
     "ROS is not installed: the library is compiled against stand-ins with the fields of the real messages (props/ros_stub).")
