AI = "interprocedural abstract interpretation of the Python source (own interpreter over the ast)"
CHECKS = {
    "C01": dict(technique=AI + ": ownership/effect analysis, every write checked to be on unowned storage", note="All paths of 81 dispatched functions, graph methods, conversions and property getters, on each graph kind and argument shape, through every helper. Trusts the model of which python-graphblas operations write in place."),
    "C02": dict(technique=AI + ": ownership escape analysis of everything reachable from a returned or yielded value", note="As C01; numbering tables may be shared, storage may not."),
    "C03": dict(technique="abstract interpretation with trace partitioning over a denotational domain (which part of A a value holds or counts; facts of the graph; what is remembered)", note="All getters, both graph classes, with and without mask, from every correct set of remembered facts (inductive, so any query history). Trusts the algebraic model of selections, reductions, unions and intersections; reductions judged for count, plus, min, max, any."),
    "C04": dict(technique=AI + ": information-flow labels of every remembered value against the labels of the key it is stored under; static-state write query", note="As C01. Values remembered in a graph's cache, module/class/function attributes, default objects and lru_cache are covered."),
    "C05": dict(technique=AI + ": exception-flow analysis from every raise to the caller, through handlers and lazily run generators", note="All paths of 81 dispatched functions on each graph kind; unknown-node contexts for the 14 functions that promise an exception; contexts without nodes and without edges for about 50 functions. Exceptions raised inside compiled libraries are not followed."),
    "C06": dict(technique="abstract execution of module-level code and get_info(); resolution of every dispatch/namespace/README/conversion entry to its definition", note="Static decision from the source; complete for the tables compared. Oracle: frozen extract of NetworkX's dispatchable functions."),
    "C07": dict(technique="signature comparison (names, order, kinds, abstractly evaluated defaults) against a frozen NetworkX signature table", note="Exhaustive over the dispatched functions and their parameters."),
    "C08": dict(technique=AI + ": each dispatched function on each graph kind; definite NetworkXNotImplemented compared with NetworkX's declarations", note="Exhaustive over dispatched functions x graph kinds; argument shapes enumerated (up to 16 per pair)."),
    "C09": dict(technique=AI + ": unit (numbering) inference for labels, row numbers, tables and matrix/vector dimensions", note="All paths of dispatched functions, graph methods and conversions. Values whose numbering the analysis loses are counted, not judged."),
    "C10": dict(technique=AI + ": numbering tables of returned graphs recovered as pieces (offset + sequence) and compared with the numbering of the matrix and its blocks", note="All graph-returning functions, on each path. The default table range(n) and file/NetworkX conversions rely on the library's own order."),
    "C11": dict(technique=AI + ": information flow of edge values (separate labels for existence and values of edges) into every answer", note="All paths of the structural functions on Graph and DiGraph; graph-returning functions: which nodes and edges. Trusts the model of which operators read values."),
    "C12": dict(technique=AI + ": information flow from every argument to the result (each route: single node, list, all, chunked, unchunked; NetworkX and backend graphs) and option-forwarding at every call of the wrapper layer", note="All dispatched functions on four graph kinds and up to 200 argument shapes. Decides that an argument can affect the answer, not that the formula is right."),
    "C13": dict(technique=AI + ": every matrix/vector step labelled with the axis it follows or counts; directions, orientation of the stored matrix, last step and ends of reported pairs compared with a per-algorithm oracle", note="All paths of the direction-sensitive functions on directed graphs and multi-source kinds. Which directions reach the answer is decided; the order in which several directions alternate is judged only where the oracle names a last step."),
    "C14": dict(technique=AI + ": three-valued symmetry (proved, certainly broken with the reason, unknown) of every matrix, followed through triangles, masks, scalings, transposes and block assignments", note="Adjacency of every returned undirected graph and seven kinds of symmetric matrices, for undirected, directed and mixed arguments. What becomes unknown is counted, not judged."),
    "C15": dict(technique="symbolic evaluation with trace partitioning: vectors hold hash-consed terms, loops over range(max_iter) are followed for 0 to 3 rounds; convergence tests, loop bounds, returns and raises are judged per path", note="All functions with tol and max_iter and their wrappers, with every combination of given/omitted arguments. Rounds after the third are taken to behave like the third; comparisons the term language cannot read are not judged."),
    "C16": dict(technique=AI + ": order taint (set iteration, unsorted extraction, `any` over several values) followed to lists, arrays, chosen values and node numberings in results", note="All paths of dispatched functions, core functions, graph methods and conversions. Trusts that to_coo() sorts by default and that `any` over one value is that value; order of returned mappings and sets is not part of the answer."),
    "C17": dict(technique="abstract interpretation with trace partitioning of the map/set classes over a symbolic container, compared with the dict/set model on every path", note="All methods of the five classes; all contents (two arbitrary nodes, symbolic remainder, possibly falsy values), fill/label configurations, programs of up to two edits (three in the thorough tier) with interleaved queries. __eq__ is not judged; trusts the model of python-graphblas vectors and matrices."),
    "C18": dict(technique="abstract execution of the import graph and of all core functions with optional packages absent; import-layering query over the syntax tree", note="Exhaustive over modules and import statements; core functions on all explored paths."),
    "C19": dict(technique=AI + ": typestate (lazy/evaluated) of every returned and yielded value; implicit-None paths", note="All paths of dispatched functions, graph methods and conversions. Trusts the lazy/evaluated classification of python-graphblas operations."),
    "C20": dict(technique="abstract interpretation of the splitting helpers with a ghost cursor (polynomial bounds, loop summaries); symbolic evaluation of every chunking route and comparison of what each reports per node", note="All list lengths and chunk sizes; one arbitrary piece and position per loop. Splitters whose arithmetic is outside polynomials and floor quotients are not judged. What an algorithm does with the nodes it is given is C09."),
    "C21": dict(technique="abstract evaluation with trace partitioning of the conversion functions on abstract graphs (first and later elements, one entry per matrix region, symbolic keys, values, attribute names), every graph kind and option combination; outcome judged against a specification", note="Exhaustive over kinds x option classes x attribute classes. Trusts the documented behaviour of graphblas.io.from_networkx and networkx.to_scipy_sparse_array; a rewrite through constructs the evaluator cannot follow is counted, not judged."),
    "C22": dict(technique="abstract evaluation with trace partitioning in a presence domain (which classes of nodes certainly have, lack, or may have an entry in every vector and matrix), through the nxapi functions, the algorithms and the converting helpers; keys of every returned map compared with the requested nodes", note="16 functions with per-node answers, both graph kinds, all nodes or a node list, five configurations (with/without self-edges, no edges, one node), chunked routes. Numbers are not followed: both outcomes of a comparison of values are evaluated. Entries that are neither certain nor excluded are counted, not judged."),
    "C23": dict(technique="abstract evaluation with trace partitioning in a frontier domain (symbolic generations of nodes with direction, origin and excluded generations; linear facts about n and cutoffs), through the nxapi functions and the algorithms; the generations in each answer are judged for completeness, number of steps and limit", note="14 functions, both graph kinds, with and without cutoff, chunked routes; up to 3 rounds of each loop (4 thorough), any number of nodes per generation. Weighted relaxation is not followed beyond the unit-weight branches; paths through constructs outside the domain are counted, not judged."),
    "C24": dict(technique="abstract evaluation with trace partitioning in a history domain: one arbitrary node's offers per relaxation round (none, better, equal, worse), vectors as maps from histories to symbolic values, questions rule histories out; the answer, the frontiers and the parents are judged for every history still possible", note="6 functions through their nxapi wrappers, both graph kinds, all routes (chunked and not, with target, iso-valued, with negative edges or self-edges); up to 3 rounds (4 thorough), any graph. Arithmetic on weights is not followed (min_plus is trusted); paths outside the domain are counted, not judged."),
}
NOTES = "All checks are static: `python3 check.py <ID>` parses /repo on every run and needs only the standard library."
