"""Single source for properties.jsonl and MANIFEST.json (see gen_meta.py)."""
A = "graphblas_algorithms/"


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [f if f.startswith("_") or f.startswith("README") else A + f for f in files],
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }


PROPS = [
    P(
        "C01",
        "No call changes the graph or the arguments it was given",
        "Calling any exported algorithm, linear-algebra, generator or conversion function never changes "
        "the nodes, edges, edge values, graph attributes or node numbering of a graph passed to it, nor any "
        "list, dict, vector or matrix argument. Data derived from a graph and kept for reuse is never "
        "modified after it was handed out.",
        ["inputs", "programs"],
        "every exported function, every graph kind, every combination of optional arguments, every path",
        "Tests compare return values; a call that scribbles on the adjacency matrix or on a kept degree "
        "vector returns the right answer once and corrupts the next, different, call.",
        ["algorithms", "linalg", "generators", "nxapi", "classes/_utils.py"],
        [
            ("copies before in-place work (.dup/.new, empty Vector << x)", "algorithms/*.py, linalg/*.py"),
            ("kept derived data returned by reference", "classes/graph.py, classes/digraph.py getters"),
        ],
        [("_A, _cache", "adjacency matrix and kept derived data, shared by reference", "classes/graph.py Graph.__init__")],
        ["adjacency, cached vectors and arguments after a call"],
    ),
    P(
        "C02",
        "Results own their storage",
        "No matrix, vector, node map, node set or graph returned by an exported function shares mutable "
        "edge or value storage with the input graph, with the data the graph keeps for reuse, or with an argument; "
        "so editing a result in place never changes the graph or a later answer. The only exceptions are graph "
        "conversions that return the very graph they were given, and an explicitly requested view "
        "(reversing with copy=False).",
        ["inputs", "programs"],
        "every exported function, graph kind, argument combination and return path",
        "Tests do not edit results and then query the graph again; an accidental alias is invisible until someone does.",
        ["algorithms", "linalg", "generators", "nxapi", "classes/nodemap.py", "classes/nodeset.py"],
        [
            (".new()/.dup() on every returned object", "algorithms/*.py, linalg/*.py"),
            ("masked property access returns a copy", "classes/_caching.py, classes/digraph.py"),
        ],
        [("_cache", "kept derived data", "classes/graph.py")],
        ["identity/aliasing of returned objects"],
    ),
    P(
        "C03",
        "Derived graph facts do not depend on query history",
        "Every derived fact or structure a graph offers (transpose, triangular, diagonal and off-diagonal parts, "
        "row/column/total/reciprocal degree vectors, reductions, self-edge, negative-edge and iso-value facts) equals its "
        "definition computed from the adjacency matrix, whichever derived facts were requested before it, in whatever "
        "order, singly or together, and with or without a mask.",
        ["histories", "inputs"],
        "all orders of property requests over all graphs, with and without self-loops and negative values",
        "Each getter has many shortcuts that read other cached facts; tests reach only the few orders the algorithms happen to use.",
        ["classes/graph.py", "classes/digraph.py", "classes/_caching.py", "classes/_utils.py"],
        [
            ("getters with reuse shortcuts", "classes/graph.py get_*/has_*, classes/digraph.py get_*/has_*"),
            ("reduction getters built on demand", "classes/_caching.py get_reduce_to_vector/get_reduce_to_scalar"),
            ("evaluation order of joint requests", "classes/_utils.py get_properties, _property_priority"),
        ],
        [("_cache", "every derived fact, keyed by name", "Graph/DiGraph instances")],
        ["Graph.get_property / get_properties results"],
    ),
    P(
        "C04",
        "Remembered answers are only reused for the same question",
        "The answer to a call depends only on the graph and on the arguments of that call: a remembered result "
        "is reused only when every argument that can affect it is the same, for that same graph. No function carries "
        "data of one call's graph or arguments over to another call in module variables, class attributes, memo tables or "
        "default argument values.",
        ["histories", "inputs"],
        "all sequences of calls with varying arguments on one or several graphs",
        "Tests call a function once per graph; a memo that forgets one argument answers correctly the first time.",
        ["classes/_utils.py", "nxapi/cluster.py", "nxapi", "algorithms"],
        [("memo helper keyed by a string built from the arguments", "classes/_utils.py _cacheit; nxapi/cluster.py")],
        [("_cache", "per-graph memo", "Graph instances")],
        ["second and later calls on one graph"],
    ),
    P(
        "C05",
        "Failures surface as the documented NetworkX exceptions",
        "No exception class private to this package ever escapes a NetworkX-facing function: a missing path, a negative "
        "cycle, non-convergence, an undefined concept or an invalid operand is reported as the corresponding NetworkX "
        "exception, also from functions that yield results lazily. A source, target or centre node that is not in the graph is "
        "reported as NetworkX's NodeNotFound or NetworkXError by the path, reachability, layer and connectivity functions that promise so. "
        "A graph without nodes or edges gets the exception NetworkX documents for it, and is never divided by where NetworkX has an answer; "
        "nor does taking the first of an empty result reach the caller as IndexError.",
        ["inputs", "programs"],
        "every NetworkX-facing function, every raising path of everything it calls, every graph kind",
        "Tests cover the usual error inputs of some functions; each raise site must be matched with each caller's handlers.",
        ["nxapi", "nxapi/exception.py", "algorithms/exceptions.py"],
        [("try/except translation around algorithm calls", "nxapi/**/*.py"), ("exception classes", "algorithms/exceptions.py")],
        [],
        ["exception class seen by the caller"],
    ),
    P(
        "C06",
        "Every advertised algorithm is dispatched, and only those",
        "Each function NetworkX can dispatch to this backend resolves to the implementation of that same function; "
        "the advertised function list names real NetworkX dispatchable functions and is complete, it matches what the "
        "dispatcher provides, what the namespaced API exports and what the README lists, and every matrix-returning "
        "dispatched function has a conversion back to the kind of array NetworkX returns.",
        ["configurations"],
        "every function name in the dispatcher, the advertised list, the API namespaces and the README",
        "Tests go through some of the tables; a table entry bound to a sibling, or missing from one table, silently falls back or answers another question.",
        ["interface.py", "nxapi/__init__.py", "_nx_graphblas/__init__.py", "README.md"],
        [("dispatch table", "interface.py Dispatcher"), ("advertised functions", "_nx_graphblas get_info"), ("return conversion", "interface.py convert_to_nx")],
        [],
        ["nx backend dispatch", "get_info()"],
    ),
    P(
        "C07",
        "Signatures stay call-compatible with NetworkX",
        "Every dispatched function accepts every positional and keyword argument list that the NetworkX function of the "
        "same name accepts, with the same parameter order and the same defaults. Parameters this backend adds are optional, "
        "keyword-only and advertised as extra parameters of exactly that function.",
        ["configurations", "inputs"],
        "every dispatched function and every way of passing its parameters",
        "Tests pass a few arguments in the usual way; a swapped or renamed parameter or changed default shows only for callers that use it.",
        ["nxapi", "_nx_graphblas/__init__.py", "interface.py"],
        [("wrapper signatures", "nxapi/**/*.py"), ("extra_parameters", "_nx_graphblas get_info")],
        [],
        ["calling conventions of nxapi functions"],
    ),
    P(
        "C08",
        "Graph kinds are refused exactly where NetworkX refuses them",
        "A dispatched function refuses directed, undirected or multigraph input with NetworkXNotImplemented exactly when the "
        "NetworkX function of the same name does, and before doing any work. Raw matrices are accepted where graphs of a permitted kind are.",
        ["configurations", "inputs"],
        "every dispatched function and every graph kind",
        "Tests try few (function, kind) pairs; a lost restriction returns a plausible number for a graph the algorithm is wrong for.",
        ["nxapi", "utils/decorators.py"],
        [("@not_implemented_for", "nxapi/**/*.py, utils/decorators.py"), ("to_graph/to_directed_graph/to_undirected_graph", "classes/*.py")],
        [],
        ["NetworkXNotImplemented"],
    ),
    P(
        "C09",
        "Node labels and internal positions are never confused",
        "Every node a caller names is looked up by its label, and every per-node or per-pair answer, path, layer or error is reported "
        "under the labels of the nodes it is about: internal row and column numbers never appear in a result and a label is never "
        "used as a number. When two graphs or a chosen node list are combined, both sides are first brought to the same numbering.",
        ["inputs"],
        "all graphs and all labelings, in particular labels that are not 0..n-1 in order, and all node lists",
        "Tests mostly use nodes labelled 0..n-1, where label and position coincide.",
        ["classes/_utils.py", "classes/nodemap.py", "classes/nodeset.py", "algorithms", "linalg", "generators", "nxapi"],
        [("_key_to_id / id_to_key translation", "classes/_utils.py"), ("list_to_ids/permutation", "linalg/*.py, operators/binary.py, shortest_paths/dense.py")],
        [("_key_to_id", "label -> row number", "Graph, NodeMap, NodeSet")],
        ["keys and values of every result"],
    ),
    P(
        "C10",
        "Constructed graphs have a consistent node numbering",
        "Every graph built by the package (conversion, subgraph, ego graph, k-truss, union, join, compose, intersection, difference, "
        "complement, reverse, ...) gives each row of its adjacency matrix exactly one label and each label exactly one row, and "
        "row i holds the edges of the node labelled i-th. Iterating the nodes visits them in row order.",
        ["inputs"],
        "all input graphs, labelings, overlapping and disjoint node sets, renamings",
        "A numbering that is off by an offset, or a label left out, gives right answers for graphs labelled in order and of full overlap.",
        ["algorithms/operators/binary.py", "algorithms/operators/unary.py", "algorithms/core.py", "generators/ego.py", "classes/_utils.py", "classes/digraph.py", "classes/graph.py"],
        [("key_to_id built next to the matrix", "algorithms/operators/binary.py, algorithms/core.py, generators/ego.py"), ("renumber_key_to_id, from_networkx", "classes/_utils.py")],
        [("_key_to_id", "label -> row number", "Graph")],
        ["nodes, adjacency and iteration order of returned graphs"],
    ),
    P(
        "C11",
        "Answers about structure ignore edge weights",
        "Functions defined on the edge structure alone (degrees, boundaries, unweighted cuts and volumes, triangles, transitivity, "
        "unweighted and square clustering, k-truss, connectivity, reachability, unweighted distances, reciprocity, regularity, isolates, "
        "tournaments, complement, ...) return the same answer whatever values the edges carry, negative and zero values included. The same holds for weight-aware functions asked for the unweighted answer.",
        ["inputs"],
        "all edge weights (including 0, negative and non-uniform ones) on all graphs",
        "Tests of these functions use unweighted graphs, for which every edge value is 1.",
        ["algorithms", "linalg", "nxapi"],
        [("pair/first/any semirings, structural masks, nvals", "algorithms/*.py"), ("unary.one before use", "linalg/*.py")],
        [],
        ["results on graphs whose adjacency matrix carries values"],
    ),
    P(
        "C12",
        "Weights and options are honoured or refused, never ignored",
        "Every optional or required argument a NetworkX-facing function accepts can affect its answer on every route the call may take "
        "(single node, node list, all nodes, chunked or not, directed or not), and a requested edge weight attribute is actually "
        "used in the answer. An option that is not supported is refused with an error.",
        ["inputs", "configurations"],
        "every parameter of every NetworkX-facing function, on every route selected by the other arguments",
        "Tests exercise an option on one route; another route that forgets to pass it on still returns a plausible answer.",
        ["nxapi", "algorithms", "linalg", "generators"],
        [("parameters passed from wrapper to algorithm", "nxapi/**/*.py")],
        [],
        ["results under changed options"],
    ),
    P(
        "C13",
        "Edge direction is respected",
        "On directed graphs, traversals, degrees, flows and distances follow edges in the direction their NetworkX meaning requires: "
        "descendants, layers, boundaries, source distances and out-degrees use outgoing edges; ancestors, common ancestors, "
        "target distances and in-degrees use incoming edges; searches towards a target walk incoming edges from it. Returned matrices and "
        "graphs have row = tail and column = head, reversed only for reverse.",
        ["inputs"],
        "all directed graphs",
        "Many test graphs are symmetric or are checked for one direction only; one transposed operand goes unnoticed on them.",
        ["algorithms", "linalg", "generators", "classes/digraph.py", "nxapi"],
        [("q @ A versus A @ q, A.T, row versus column reductions", "algorithms/*.py"), ("transpose flag", "algorithms/_bfs.py")],
        [],
        ["results on asymmetric digraphs"],
    ),
    P(
        "C14",
        "Undirected results are symmetric",
        "For undirected input, every returned pairwise matrix that is symmetric by definition (adjacency, Laplacians, modularity, "
        "Bethe-Hessian, all-pairs distances) and the adjacency of every returned undirected graph is symmetric: each edge or distance appears in both "
        "directions with the same value. Likewise for a graph made undirected from a directed one.",
        ["inputs"],
        "all undirected graphs, node lists and operand pairs",
        "Tests check selected entries, or go through conversions that read one triangle only.",
        ["algorithms/shortest_paths/dense.py", "algorithms/operators", "algorithms/core.py", "linalg", "generators/ego.py", "classes/digraph.py"],
        [("symmetrisation, symmetric operators, block assignments in pairs", "algorithms/shortest_paths/dense.py, operators/binary.py, linalg/*.py")],
        [],
        ["returned matrices and graphs"],
    ),
    P(
        "C15",
        "Iterative methods return converged values or fail",
        "PageRank, HITS, Katz and eigenvector centrality return a vector only if, within max_iter iterations, the change from the previous iterate "
        "to this one passed the tolerance test given by tol; when that never happens they raise the documented non-convergence error. "
        "The tested difference is between two consecutive iterates.",
        ["inputs", "programs"],
        "all graphs, start vectors, tolerances and iteration limits",
        "Tests use graphs that converge quickly; a loop that falls through, or a test between an iterate and itself, gives nearly the same numbers there.",
        ["algorithms/_helpers.py", "algorithms/link_analysis", "algorithms/centrality/katz.py", "algorithms/centrality/eigenvector.py", "nxapi/link_analysis", "nxapi/centrality"],
        [("is_converged guard before return, raise after the loop", "algorithms/link_analysis/*.py, algorithms/centrality/*.py")],
        [],
        ["returned vectors, PowerIterationFailedConvergence"],
    ),
    P(
        "C16",
        "Results do not depend on set, hash or storage order",
        "Lists, paths, layers, sequences, chosen representatives and the node order of returned graphs never depend on the iteration order of Python "
        "sets or on the unspecified order in which sparse storage lists its entries. Two runs of one call, under any hash seed, give equal results.",
        ["inputs", "configurations"],
        "all graphs, all label types, all hash seeds",
        "The tests run with one hash seed and small integer labels, for which set order is sorted order.",
        ["algorithms/operators/binary.py", "algorithms/lowest_common_ancestors.py", "algorithms/tournament.py", "classes/_utils.py", "nxapi"],
        [("sorted(...) around key sets, sort=True/default in to_coo", "operators/binary.py, classes/_utils.py")],
        [],
        ["ordered results"],
    ),
    P(
        "C17",
        "Node maps and node sets behave like mappings and sets",
        "For every stored content, fill value and sequence of edits, a returned node map or node set is self-consistent: "
        "membership, item access, get, iteration and length agree; an entry whose stored value is 0 or False is present; "
        "get on an absent known node returns the default and item access raises KeyError; assignment, deletion, pop, clear, add, discard and remove "
        "have exactly their usual effect, including on rows that become empty or non-empty.",
        ["histories", "inputs"],
        "all contents (present/absent/falsy), fill values, label-valued maps and sequences of operations",
        "Tests exercise a handful of operations on small maps, mostly without interleaving edits and queries.",
        ["classes/nodemap.py", "classes/nodeset.py"],
        [("Mapping/Set methods over sparse vectors", "classes/nodemap.py, classes/nodeset.py"), ("row bookkeeping", "VectorNodeMap._get_rows, NodeNodeMap._get_rows")],
        [("_rows", "which rows are non-empty, built lazily", "VectorNodeMap, NodeNodeMap"), ("_fill_value", "value of absent nodes", "NodeMap, NodeNodeMap")],
        ["mapping protocol of results"],
    ),
    P(
        "C18",
        "The core works without NetworkX and stays layered",
        "Importing the package and its core algorithms never requires NetworkX or SciPy; the plugin information module used by NetworkX at start-up "
        "imports neither the package nor anything outside the standard library. Core algorithms never depend on the NetworkX-facing layer.",
        ["configurations"],
        "all installation configurations and import orders",
        "The test environment has every optional dependency installed, so a new hard import passes.",
        ["__init__.py", "algorithms", "classes", "linalg", "generators", "nxapi", "_nx_graphblas/__init__.py"],
        [("guarded or function-local imports", "classes/*.py, nxapi/exception.py, utils/decorators.py")],
        [],
        ["import in an environment without optional dependencies"],
    ),
    P(
        "C19",
        "Every call returns a finished value",
        "Every path of every exported function returns a computed value of its documented kind: never an unevaluated sparse expression, a "
        "transposed view, a mask or a backend scalar wrapper, and never an implicit None. Functions that yield results yield finished values too.",
        ["inputs", "programs"],
        "every return and yield of every exported function, under all arguments",
        "A lazy expression prints and compares like a value in most assertions, and a missing return shows on the one path tests skip.",
        ["algorithms", "linalg", "generators", "nxapi", "classes/nodemap.py"],
        [(".new()/.get()/.value before returning", "algorithms/*.py, linalg/*.py")],
        [],
        ["type of returned objects"],
    ),
    P(
        "C20",
        "Chunked and unchunked computation agree",
        "Where work is split into chunks, every requested node is processed exactly once, every row is reported under the node it was computed for, and every other argument reaches "
        "every chunk, so the chunk size never changes the answer. The splitting helpers return contiguous, in-order, non-empty pieces that together are exactly the input.",
        ["inputs", "configurations"],
        "all chunk sizes, node counts and node lists",
        "Default chunk sizes put all test graphs into one chunk.",
        ["nxapi/_utils.py", "nxapi/shortest_paths", "nxapi/cluster.py", "algorithms/shortest_paths", "algorithms/_bfs.py"],
        [("partition/split_evenly/normalize_chunksize", "nxapi/_utils.py"), ("chunk loops", "nxapi/shortest_paths/*.py, nxapi/cluster.py")],
        [],
        ["results under different chunksize"],
    ),
    P(
        "C21",
        "Conversions keep every node and edge or refuse",
        "Converting from NetworkX picks the directed/undirected/multigraph class of the source, keeps all nodes in order and all edges with the requested attribute, and "
        "either honours or refuses (NotImplementedError/TypeError) every preservation option. Converting to NetworkX keeps every node, isolated ones included, and every edge "
        "exactly once, self-loops included, with its value and direction; matrix results become the array NetworkX returns, absent entries standing for zero, or for infinity where "
        "they are distances. The converting helpers to_graph, to_directed_graph and to_undirected_graph do the same or refuse the kind.",
        ["inputs", "configurations"],
        "all graphs and graph kinds, all preservation options",
        "Round trips are tested on a few loop-free graphs through one option set.",
        ["interface.py", "classes/_utils.py", "classes/graph.py", "classes/digraph.py"],
        [("convert_from_nx/convert_to_nx", "interface.py"), ("from_networkx/to_networkx", "classes/_utils.py"), ("to_graph, to_directed_graph, to_undirected_graph", "classes/digraph.py, classes/graph.py")],
        [],
        ["converted graphs"],
    ),
    P(
        "C22",
        "Per-node answers cover every requested node",
        "A per-node answer over the whole graph has an entry for every node, and one over requested nodes has an entry for every requested node and no other, even for isolated nodes, "
        "nodes in no triangle or nodes whose value is zero, wherever the NetworkX function promises so. A graph whose nodes have no edges is regular, of degree 0.",
        ["inputs"],
        "all graphs with isolated, dangling or zero-valued nodes, all node subsets",
        "Missing entries only show for nodes with empty rows, which most test graphs lack.",
        ["nxapi/cluster.py", "nxapi/centrality", "nxapi/link_analysis", "classes/_utils.py"],
        [("fill_value / mask of vector_to_nodemap", "nxapi/*.py, classes/_utils.py")],
        [],
        ["keys of returned node maps"],
    ),
    P(
        "C23",
        "Searches find exactly what is reachable",
        "Searches (components, descendants, ancestors, breadth-first layers, hop distances, ego graphs, path existence) follow every edge in the promised direction from every node they find, "
        "report each node at its smallest number of steps, and stop only when nothing new was found, the requested number of steps is reached, or the target has been found.",
        ["inputs", "histories"],
        "all graphs, all sources and targets, all cutoffs",
        "A search that stops a round early, re-reports a node, or misses one direction in one round is right on small and dense graphs; only paths of a particular shape show it.",
        ["algorithms/_bfs.py", "algorithms/traversal", "algorithms/shortest_paths", "algorithms/components", "algorithms/dag.py", "generators/ego.py"],
        [("_bfs_plain, _bfs_level, _bfs_levels, _bfs_plain_bidirectional", "algorithms/_bfs.py"), ("bfs_layers, descendants_at_distance", "algorithms/traversal/breadth_first_search.py"), ("bidirectional_shortest_path_length", "algorithms/shortest_paths/unweighted.py"), ("the unit-weight branches of Bellman-Ford", "algorithms/shortest_paths/weighted.py")],
        [],
        ["answers of searches", "number of rounds"],
    ),
    P(
        "C24",
        "Weighted searches relax every improvement and detect negative cycles",
        "Weighted shortest-path searches (Bellman-Ford lengths, paths, all pairs, negative cycles, weighted ego graphs) relax every edge out of every node whose distance improved until nothing improves "
        "(or n - 1 rounds are done), keep each node's best length (and, for paths, its parent), and report an unbounded result exactly when a negative cycle was found.",
        ["inputs", "histories"],
        "all weighted graphs, all sources and targets, all sequences of improvements",
        "An improvement that is dropped, overwritten or not passed on only shows in graphs where a longer chain of edges is lighter, in the right round; negative cycles have to sit at the right distance.",
        ["algorithms/shortest_paths/weighted.py", "nxapi/shortest_paths/weighted.py", "generators/ego.py"],
        [("_bellman_ford_path_length, bellman_ford_path_lengths", "algorithms/shortest_paths/weighted.py"), ("bellman_ford_path: parents", "algorithms/shortest_paths/weighted.py"), ("negative_edge_cycle", "algorithms/shortest_paths/weighted.py")],
        [],
        ["lengths and parents returned", "when Unbounded is raised"],
    ),
    P(
        "C30",
        "Returned numbers equal NetworkX's",
        "For every graph and argument list, the numbers returned (centralities, clustering, distances, scores) equal those of the NetworkX function of the same name up to rounding.",
        ["inputs"],
        "all graphs and arguments",
        "Tests sample graphs.",
        ["algorithms", "linalg"],
        [("GraphBLAS formulations", "algorithms/*.py")],
    ),
    P(
        "C31",
        "Reported paths and distances are optimal",
        "Every reported distance is the minimum over all paths, every reported path attains it, and a negative cycle is reported exactly when one is reachable and relevant.",
        ["inputs"],
        "all weighted graphs",
        "Tests sample graphs.",
        ["algorithms/shortest_paths"],
        [("Bellman-Ford and Floyd-Warshall sweeps", "algorithms/shortest_paths/weighted.py, dense.py")],
    ),
    P(
        "C32",
        "No silent integer overflow or precision loss",
        "Counts, distances and sums never wrap around or lose integer precision in the data type they are computed in, whatever the data type of the edge values.",
        ["inputs"],
        "all sizes, all dtypes",
        "Tests use small graphs.",
        ["algorithms", "linalg", "classes/_caching.py"],
        [("dtype choices", "algorithms/*.py")],
    ),
    P(
        "C33",
        "Chunking bounds peak memory",
        "With a chunk size given in bytes, no intermediate result exceeds that many bytes by more than a constant factor.",
        ["inputs", "configurations"],
        "all graphs and chunk sizes",
        "Memory is not measured in tests.",
        ["nxapi/_utils.py", "nxapi/shortest_paths", "nxapi/cluster.py"],
        [("normalize_chunksize", "nxapi/_utils.py")],
    ),
    P(
        "C34",
        "Concurrent queries of one graph are safe",
        "Several threads may call algorithms on one graph at the same time and each gets the answer it would get alone.",
        ["schedules"],
        "all interleavings",
        "Tests are single-threaded.",
        ["classes/graph.py", "classes/digraph.py", "classes/_caching.py"],
        [("lazily filled per-graph cache without locks", "classes/*.py")],
    ),
]

NOT_APPLICABLE = {
    "C30": "Numeric equality with NetworkX quantifies over runtime values of sparse kernels executed in a C library; no static argument in reach bounds them. The structural preconditions (data flow, direction, weights, coverage, convergence guard) are claimed as C11-C16 and C22.",
    "C31": "End-to-end optimality of the numbers (rounding, dtypes, the level-times-weight shortcuts, the dense Floyd-Warshall sweep over one shared matrix) needs an inductive proof over all weighted graphs; the relaxation discipline it rests on is claimed as C24 (weighted) and C23 (unweighted).",
    "C32": "Depends on runtime magnitudes and on dtype unification inside the GraphBLAS library; not bounded by anything in the source.",
    "C33": "Peak memory is a runtime quantity of the sparse library; the source only computes a row count. That chunking does not change results is claimed as C20.",
    "C34": "The project takes no lock and promises no thread safety; whether an unlocked check-then-fill race changes an answer depends on interleavings inside the C library. Nothing in the code is meant to make it hold, so there is no mechanism to check.",
}
