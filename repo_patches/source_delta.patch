From 8862c5ae84b59ba062869d9cfebd8960752662bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 01/44] fix: full_join has NetworkX's default for rename

---
 graphblas_algorithms/algorithms/operators/binary.py | 2 +-
 graphblas_algorithms/nxapi/operators/binary.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 4c14a11..50a5c2a 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -147,7 +147,7 @@ def compose(G, H, *, name="compose"):
     return type(G)(C, key_to_id=key_to_id)
 
 
-def full_join(G, H, rename=(), *, name="full_join"):
+def full_join(G, H, rename=(None, None), *, name="full_join"):
     rv = union(G, H, rename, name=name)
     nrows, ncols = G._A.shape
     rv._A[:nrows, ncols:] = True
diff --git a/graphblas_algorithms/nxapi/operators/binary.py b/graphblas_algorithms/nxapi/operators/binary.py
index 82e8f08..7e48843 100644
--- a/graphblas_algorithms/nxapi/operators/binary.py
+++ b/graphblas_algorithms/nxapi/operators/binary.py
@@ -68,7 +68,7 @@ def compose(G, H):
         raise NetworkXError(*e.args) from e
 
 
-def full_join(G, H, rename=()):
+def full_join(G, H, rename=(None, None)):
     G = to_graph(G)
     H = to_graph(H)
     try:
-- 
2.43.0


From 27fbd1a132d52384f0250b3b95aa008212cb7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 02/44] fix: laplacian_matrix and normalized_laplacian_matrix
 refuse directed graphs like NetworkX

---
 graphblas_algorithms/nxapi/linalg/laplacianmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
index 752ca1e..478bd95 100644
--- a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
@@ -1,14 +1,17 @@
 from graphblas_algorithms import linalg
 from graphblas_algorithms.classes.digraph import to_graph
+from graphblas_algorithms.utils import not_implemented_for
 
 __all__ = ["laplacian_matrix", "normalized_laplacian_matrix"]
 
 
+@not_implemented_for("directed")
 def laplacian_matrix(G, nodelist=None, weight="weight"):
     G = to_graph(G, weight=weight)
     return linalg.laplacian_matrix(G, nodelist, is_weighted=weight is not None)
 
 
+@not_implemented_for("directed")
 def normalized_laplacian_matrix(G, nodelist=None, weight="weight"):
     G = to_graph(G, weight=weight)
     return linalg.normalized_laplacian_matrix(G, nodelist, is_weighted=weight is not None)
-- 
2.43.0


From 343d3e0ac93a065e42db86bc83f5120bd5d51d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 03/44] fix: average_clustering remembers weighted and
 unweighted answers separately

---
 graphblas_algorithms/nxapi/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 8e61f9b..ac46875 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -69,7 +69,7 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
         func = algorithms.average_clustering
     if mask is None:
         return G._cacheit(
-            f"average_clustering(count_zeros={count_zeros})",
+            f"average_clustering(weighted={weighted}, count_zeros={count_zeros})",
             func,
             G,
             weighted=weighted,
-- 
2.43.0


From c23bfcbb82e24339f581b16e737c220f86962422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 04/44] fix: laplacian_matrix of a raw matrix without weights
 uses a degree vector every graph class has

---
 graphblas_algorithms/linalg/laplacianmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 18ed65a..a3b958f 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -19,7 +19,7 @@ def _laplacian_helper(G, nodelist=None, is_weighted=False):
     elif is_weighted:
         d = G.get_property("plus_rowwise+")
     else:
-        d = G.get_property("degrees+")
+        d = G.get_property("row_degrees+")
         A = unary.one(A).new()
     return d, A
 
-- 
2.43.0


From f9d9bc5adff3de9b2c4712a79aaba19ebae7f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 05/44] fix: bellman_ford_path_length returns a number, not an
 expression, on iso-valued graphs

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index a83a060..391646f 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -34,7 +34,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
                 if d is None:
                     raise NoPath(f"node {target} not reachable from {source}")
             if iso_value != 1:
-                d *= iso_value
+                d *= iso_value.value
             return d
         # It's difficult to detect negative cycles with BFS
         if G._A[src_id, src_id].get() is not None:
-- 
2.43.0


From 49268701ab6727436347d24cdf0e1b5d7ccee241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 06/44] fix: bellman_ford_path, bellman_ford_path_length and
 ego_graph report missing paths and negative cycles as NetworkX exceptions

---
 .../algorithms/shortest_paths/weighted.py      |  5 +++--
 graphblas_algorithms/nxapi/generators/ego.py   | 18 ++++++++++++++----
 .../nxapi/shortest_paths/weighted.py           |  6 ++++++
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 391646f..102a575 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -201,7 +201,8 @@ def _reconstruct_path_from_parents(G, parents, src, dst):
     indices, values = parents.to_coo(sort=False)
     d = dict(zip(indices.tolist(), values.tolist(), strict=True))
     if dst not in d:
-        return []
+        id_to_key = G.id_to_key
+        raise NoPath(f"node {id_to_key[dst]} not reachable from {id_to_key[src]}")
     cur = dst
     path = [cur]
     while cur != src:
@@ -291,7 +292,7 @@ def bellman_ford_path(G, source, target):
         if mask.get(dst_id):
             raise Unbounded("Negative cycle detected.")
     path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
-    if has_negative_diagonal and path:
+    if has_negative_diagonal:
         mask.clear()
         mask[G.list_to_ids(path)] = True
         diag = G.get_property("diag", mask=mask.S)
diff --git a/graphblas_algorithms/nxapi/generators/ego.py b/graphblas_algorithms/nxapi/generators/ego.py
index e591cb3..dce769f 100644
--- a/graphblas_algorithms/nxapi/generators/ego.py
+++ b/graphblas_algorithms/nxapi/generators/ego.py
@@ -1,11 +1,21 @@
-from graphblas_algorithms import generators
+from graphblas_algorithms import algorithms, generators
 from graphblas_algorithms.classes.digraph import to_graph
 
+from ..exception import NetworkXUnbounded
+
 __all__ = ["ego_graph"]
 
 
 def ego_graph(G, n, radius=1, center=True, undirected=False, distance=None):
     G = to_graph(G, weight=distance)
-    return generators.ego_graph(
-        G, n, radius=radius, center=center, undirected=undirected, is_weighted=distance is not None
-    )
+    try:
+        return generators.ego_graph(
+            G,
+            n,
+            radius=radius,
+            center=center,
+            undirected=undirected,
+            is_weighted=distance is not None,
+        )
+    except algorithms.exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
diff --git a/graphblas_algorithms/nxapi/shortest_paths/weighted.py b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
index b08dd85..f1f4754 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/weighted.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
@@ -64,6 +64,10 @@ def bellman_ford_path(G, source, target, weight="weight"):
         return algorithms.bellman_ford_path(G, source, target)
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
+    except exceptions.NoPath as e:
+        raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def bellman_ford_path_length(G, source, target, weight="weight"):
@@ -74,6 +78,8 @@ def bellman_ford_path_length(G, source, target, weight="weight"):
         raise NodeNotFound(*e.args) from e
     except exceptions.NoPath as e:
         raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def negative_edge_cycle(G, weight="weight", heuristic=True):
-- 
2.43.0


From 1899b940f38d555742d86ff18d85d319912578e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 07/44] fix: efficiency, ego_graph, is_isolate and
 lowest_common_ancestor report unknown nodes like NetworkX

---
 graphblas_algorithms/nxapi/efficiency_measures.py     | 7 ++++++-
 graphblas_algorithms/nxapi/generators/ego.py          | 4 +++-
 graphblas_algorithms/nxapi/isolate.py                 | 7 ++++++-
 graphblas_algorithms/nxapi/lowest_common_ancestors.py | 7 ++++++-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/nxapi/efficiency_measures.py b/graphblas_algorithms/nxapi/efficiency_measures.py
index 06971a2..725cde2 100644
--- a/graphblas_algorithms/nxapi/efficiency_measures.py
+++ b/graphblas_algorithms/nxapi/efficiency_measures.py
@@ -2,8 +2,13 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.graph import to_undirected_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .exception import NodeNotFound
+
 
 @not_implemented_for("directed")
 def efficiency(G, u, v):
     G = to_undirected_graph(G)
-    return algorithms.efficiency(G, u, v)
+    try:
+        return algorithms.efficiency(G, u, v)
+    except KeyError as e:
+        raise NodeNotFound(*e.args) from e
diff --git a/graphblas_algorithms/nxapi/generators/ego.py b/graphblas_algorithms/nxapi/generators/ego.py
index dce769f..fe6dc77 100644
--- a/graphblas_algorithms/nxapi/generators/ego.py
+++ b/graphblas_algorithms/nxapi/generators/ego.py
@@ -1,13 +1,15 @@
 from graphblas_algorithms import algorithms, generators
 from graphblas_algorithms.classes.digraph import to_graph
 
-from ..exception import NetworkXUnbounded
+from ..exception import NetworkXUnbounded, NodeNotFound
 
 __all__ = ["ego_graph"]
 
 
 def ego_graph(G, n, radius=1, center=True, undirected=False, distance=None):
     G = to_graph(G, weight=distance)
+    if n not in G:
+        raise NodeNotFound(f"Source {n} is not in G")
     try:
         return generators.ego_graph(
             G,
diff --git a/graphblas_algorithms/nxapi/isolate.py b/graphblas_algorithms/nxapi/isolate.py
index 728e9d8..2bf44aa 100644
--- a/graphblas_algorithms/nxapi/isolate.py
+++ b/graphblas_algorithms/nxapi/isolate.py
@@ -1,12 +1,17 @@
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 
+from .exception import NetworkXError
+
 __all__ = ["is_isolate", "isolates", "number_of_isolates"]
 
 
 def is_isolate(G, n):
     G = to_graph(G)
-    return algorithms.is_isolate(G, n)
+    try:
+        return algorithms.is_isolate(G, n)
+    except KeyError as e:
+        raise NetworkXError(*e.args) from e
 
 
 def isolates(G):
diff --git a/graphblas_algorithms/nxapi/lowest_common_ancestors.py b/graphblas_algorithms/nxapi/lowest_common_ancestors.py
index f94e8c2..98359a7 100644
--- a/graphblas_algorithms/nxapi/lowest_common_ancestors.py
+++ b/graphblas_algorithms/nxapi/lowest_common_ancestors.py
@@ -2,10 +2,15 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_directed_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .exception import NodeNotFound
+
 __all__ = ["lowest_common_ancestor"]
 
 
 @not_implemented_for("undirected")
 def lowest_common_ancestor(G, node1, node2, default=None):
     G = to_directed_graph(G)
-    return algorithms.lowest_common_ancestor(G, node1, node2, default=default)
+    try:
+        return algorithms.lowest_common_ancestor(G, node1, node2, default=default)
+    except KeyError as e:
+        raise NodeNotFound(*e.args) from e
-- 
2.43.0


From f9dc23d49de18de6fe12478a9f925c69fb9a06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 08/44] fix: square_clustering does not depend on edge weights

---
 graphblas_algorithms/algorithms/cluster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 0b9ab21..c1c82a1 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -1,6 +1,6 @@
 import numpy as np
 from graphblas import Matrix, Vector, binary, replace, unary
-from graphblas.semiring import plus_first, plus_pair, plus_times
+from graphblas.semiring import plus_first, plus_pair, plus_second, plus_times
 
 __all__ = [
     "single_triangle",
@@ -217,7 +217,7 @@ def single_square_clustering(G, idx):
     denom -= deg * (deg - 1)
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
     # This is the only positive term.
-    denom += plus_times(v @ degrees).value * (deg - 1)
+    denom += plus_second(v @ degrees).value * (deg - 1)
     # (4) Subtract the number of squares
     denom -= squares
     # And we're done!
@@ -233,7 +233,7 @@ def square_clustering(G, node_ids=None):
     #   tri = first(P2 & A).reduce_rowwise()
     #   squares = (P2 * (P2 - 1)).reduce_rowwise() / 2
     #   uw_count = degrees * (degrees - 1)
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
     #   square_clustering = squares / (uw_degrees - uw_count - tri - squares)
     #
     A, degrees = G.get_properties("A degrees+")  # TODO" how to handle self-edges?
@@ -271,9 +271,9 @@ def square_clustering(G, node_ids=None):
     neg_denom(binary.plus) << degrees * denom
 
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
-    # denom(binary.times) << plus_times(A @ degrees)
-    denom(binary.times, denom.S) << plus_times(Asubset @ degrees)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
+    # denom(binary.times) << plus_second(A @ degrees)
+    denom(binary.times, denom.S) << plus_second(Asubset @ degrees)
 
     # (4) Subtract the number of squares
     denom(binary.minus) << binary.plus(neg_denom & squares)
-- 
2.43.0


From 20d83ae5d09bef162118a87ed16ac4ecd5be15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 09/44] fix: square_clustering answers for every requested
 node, for any chunksize

---
 graphblas_algorithms/nxapi/cluster.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index ac46875..7fce0b9 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -1,4 +1,4 @@
-from graphblas import monoid
+from graphblas import Vector, monoid
 
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
@@ -82,13 +82,10 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
 def _square_clustering_split(G, node_ids=None, *, chunksize):
     if node_ids is None:
         node_ids, _ = G._A.reduce_rowwise(monoid.any).to_coo(values=False)
-    result = None
+    result = Vector(float, len(G), name="square_clustering")
     for chunk_ids in partition(chunksize, node_ids):
         res = algorithms.square_clustering(G, chunk_ids)
-        if result is None:
-            result = res
-        else:
-            result << monoid.any(result | res)
+        result << monoid.any(result | res)
     return result
 
 
@@ -114,11 +111,12 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
         idx = G._key_to_id[nodes]
         return algorithms.single_square_clustering(G, idx)
     ids = G.list_to_ids(nodes)
+    mask = Vector.from_coo(ids, True, size=len(G), name="mask").S
     if chunksize is None:
         result = algorithms.square_clustering(G, ids)
     else:
         result = _square_clustering_split(G, ids, chunksize=chunksize)
-    return G.vector_to_nodemap(result)
+    return G.vector_to_nodemap(result, mask=mask, fill_value=0)
 
 
 @not_implemented_for("directed")
-- 
2.43.0


From 0ce3bbc33bdf66ecb024c8c383213dc3a2b32452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 10/44] fix: katz_centrality counts nodes without incoming
 edges

---
 graphblas_algorithms/algorithms/centrality/katz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/centrality/katz.py b/graphblas_algorithms/algorithms/centrality/katz.py
index 8087e85..be8d8c5 100644
--- a/graphblas_algorithms/algorithms/centrality/katz.py
+++ b/graphblas_algorithms/algorithms/centrality/katz.py
@@ -1,4 +1,4 @@
-from graphblas import Scalar, Vector
+from graphblas import Scalar, Vector, binary
 from graphblas.core.utils import output_type
 from graphblas.semiring import plus_first, plus_times
 
@@ -46,7 +46,7 @@ def katz_centrality(
         # x << alpha * semiring(xprev @ A) + beta
         x << semiring(xprev @ A)
         x *= alpha
-        x += b
+        x(binary.plus) << b  # `x += b` would skip nodes without incoming edges
         if is_converged(xprev, x, tol):  # sum(abs(xprev - x)) < N * tol
             x.name = name
             if normalized:
-- 
2.43.0


From 8f8faa17e8fc7e16b829006088f8a736334b98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 11/44] fix: edge_boundary of a directed graph keeps edges to
 nodes without outgoing edges

---
 graphblas_algorithms/algorithms/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/boundary.py b/graphblas_algorithms/algorithms/boundary.py
index 96bd275..b3f964d 100644
--- a/graphblas_algorithms/algorithms/boundary.py
+++ b/graphblas_algorithms/algorithms/boundary.py
@@ -11,8 +11,8 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B = binary.pair(nbunch1 & G._A).new(name="boundary")
     if nbunch2 is None:
         # Default nbunch2 is the complement of nbunch1.
-        # We get the row_degrees to better handle hypersparse data.
-        nbunch2 = G.get_property("row_degrees+", mask=~nbunch1.S)
+        # We get the column_degrees to better handle hypersparse data.
+        nbunch2 = G.get_property("column_degrees+", mask=~nbunch1.S)
     if is_weighted:
         B << binary.first(B & nbunch2)
     else:
-- 
2.43.0


From 66fa83fc7eef4a3e9298b8a55aaacb3380a5b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 12/44] fix: weighted volume of a directed graph sums outgoing
 edges

---
 graphblas_algorithms/algorithms/cuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 918dc56..9c1740f 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -1,5 +1,5 @@
 from graphblas import monoid
-from graphblas.semiring import any_pair, plus_first
+from graphblas.semiring import any_pair, plus_second
 
 from .boundary import edge_boundary, node_boundary
 
@@ -32,7 +32,7 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 
 def volume(G, S, *, weighted=False):
     if weighted:
-        degrees = plus_first(G._A @ S)
+        degrees = plus_second(S @ G._A)
     else:
         degrees = G.get_property("row_degrees+", mask=S.S)
     return degrees.reduce(monoid.plus).get(0)
-- 
2.43.0


From b153aa26400be8aeffc5c44069aec540b795ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 13/44] fix: normalized_cut_size, conductance, edge_expansion
 and mixing_expansion honour weight

---
 graphblas_algorithms/algorithms/cuts.py | 24 ++++++++++++------------
 graphblas_algorithms/nxapi/cuts.py      | 12 ++++++++----
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 9c1740f..b8a449e 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -38,22 +38,22 @@ def volume(G, S, *, weighted=False):
     return degrees.reduce(monoid.plus).get(0)
 
 
-def normalized_cut_size(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def normalized_cut_size(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges * ((1 / volume_S) + (1 / volume_T))
 
 
-def conductance(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def conductance(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges / min(volume_S, volume_T)
 
 
-def edge_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def edge_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     if T is None:
         Tnvals = S.size - S.nvals
     else:
@@ -61,8 +61,8 @@ def edge_expansion(G, S, T=None):
     return num_cut_edges / min(S.nvals, Tnvals)
 
 
-def mixing_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def mixing_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
 
 
diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 8343109..0656650 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -29,37 +29,41 @@ def volume(G, S, weight=None):
 
 
 def normalized_cut_size(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.normalized_cut_size(G, S, T)
+    return algorithms.normalized_cut_size(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def conductance(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     if T is None:
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.conductance(G, S, T)
+    return algorithms.conductance(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def edge_expansion(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.edge_expansion(G, S, T)
+    return algorithms.edge_expansion(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def mixing_expansion(G, S, T=None, weight=None):
+    is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.mixing_expansion(G, S, T)
+    return algorithms.mixing_expansion(G, S, T, is_weighted=is_multigraph or weight is not None)
 
 
 def node_expansion(G, S):
-- 
2.43.0


From 2c7440111e9ac121b71c097d3a5aa0ae77b23297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 14/44] fix: edge_boundary with data=<attribute> yields
 attribute values like NetworkX

---
 graphblas_algorithms/nxapi/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/nxapi/boundary.py b/graphblas_algorithms/nxapi/boundary.py
index 662cfe4..db8feeb 100644
--- a/graphblas_algorithms/nxapi/boundary.py
+++ b/graphblas_algorithms/nxapi/boundary.py
@@ -27,8 +27,8 @@ def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None
         it = zip(
             (id_to_key[row] for row in rows),
             (id_to_key[col] for col in cols),
-            # Unsure about this; data argument may mean *all* edge attributes
-            ({weight: val} for val in vals),
+            # Unsure about this; data=True may mean *all* edge attributes
+            ({weight: val} for val in vals) if data is True else vals,
             strict=True,
         )
     else:
-- 
2.43.0


From ca99c020106e03a3f0ac3e9e278947947cdc2781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:06 +0000
Subject: [PATCH 15/44] fix: google_matrix finds dangling nodes in the order of
 nodelist

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 7391dbe..4144811 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -130,7 +130,7 @@ def google_matrix(
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(mask=personalization.V, name="p")
 
-    if ids is None or len(ids) == len(G):
+    if ids is None:
         nonempty_rows = G.get_property("any_rowwise+")  # XXX: What about self-edges?
     else:
         nonempty_rows = A.reduce_rowwise(monoid.any).new(name="nonempty_rows")
-- 
2.43.0


From e8ebf00dc7f17879e3dca5b3bfa64f9f7dd4575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 16/44] fix: union and full_join keep nodes in the order of the
 rows, as NetworkX does

---
 graphblas_algorithms/algorithms/operators/binary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 50a5c2a..ed21d46 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -38,8 +38,9 @@ def union(G, H, rename=(), *, name="union"):
     C[: A.nrows, : A.ncols] = A
     C[A.nrows :, A.ncols :] = B
     offset = A.nrows
-    key_to_id = {key: val + offset for key, val in H._key_to_id.items()}
-    key_to_id.update(G._key_to_id)
+    # Keep nodes in the order of the rows
+    key_to_id = dict(G._key_to_id)
+    key_to_id.update((key, val + offset) for key, val in H._key_to_id.items())
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From 22df4872d565da86bee725842f5d69b07ec2004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 17/44] fix: compose of graphs with different nodes keeps every
 edge of both graphs

---
 .../algorithms/operators/binary.py            | 29 +++++++------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index ed21d46..ef2c3e7 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -1,3 +1,4 @@
+import numpy as np
 from graphblas import Matrix, binary, dtypes, unary
 
 from ..exceptions import GraphBlasAlgorithmException
@@ -126,25 +127,17 @@ def compose(G, H, *, name="compose"):
         C = binary.second(A | B).new(name=name)
         key_to_id = G._key_to_id
     else:
-        keys = sorted(G._key_to_id.keys() & H._key_to_id.keys(), key=G._key_to_id.__getitem__)
-        B = H._A
-        C = Matrix(
-            dtypes.unify(A.dtype, B.dtype),
-            A.nrows + B.nrows - len(keys),
-            A.ncols + B.ncols - len(keys),
-            name=name,
-        )
-        C[: A.nrows, : A.ncols] = A
-        ids1 = G.list_to_ids(keys)
-        ids2 = H.list_to_ids(keys)
-        C[ids1, ids1] = B[ids2, ids2]
+        # Nodes that are only in H go after the nodes of G
         newkeys = sorted(H._key_to_id.keys() - G._key_to_id.keys(), key=H._key_to_id.__getitem__)
-        ids = H.list_to_ids(newkeys)
-        C[A.nrows :, A.ncols :] = B[ids, ids]
-        # Now make new `key_to_id`
-        ids += A.nrows
-        key_to_id = dict(zip(newkeys, ids.tolist(), strict=True))
-        key_to_id.update(G._key_to_id)
+        key_to_id = dict(G._key_to_id)
+        key_to_id.update(zip(newkeys, range(A.nrows, A.nrows + len(newkeys)), strict=True))
+        n = len(key_to_id)
+        C = Matrix(dtypes.unify(A.dtype, B.dtype), n, n, name=name)
+        C[: A.nrows, : A.ncols] = A
+        # Add the edges of H to the rows and columns of the same nodes; values from H take precedence
+        keys = sorted(H._key_to_id, key=H._key_to_id.__getitem__)
+        ids = np.fromiter((key_to_id[key] for key in keys), np.uint64, len(keys))
+        C(binary.second)[ids, ids] << B
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From d01cddd1b480aa3b227650cb781d0ae5eb252058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 18/44] fix: union, disjoint_union, intersection and compose
 refuse to mix directed and undirected graphs like NetworkX

---
 graphblas_algorithms/algorithms/operators/binary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index ef2c3e7..3fff1b3 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -17,6 +17,8 @@ __all__ = [
 def union(G, H, rename=(), *, name="union"):
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
     if rename:
@@ -48,6 +50,8 @@ def union(G, H, rename=(), *, name="union"):
 def disjoint_union(G, H, *, name="disjoint_union"):
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
     A = G._A
@@ -61,6 +65,8 @@ def disjoint_union(G, H, *, name="disjoint_union"):
 def intersection(G, H, *, name="intersection"):
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
     keys = sorted(G._key_to_id.keys() & H._key_to_id.keys(), key=G._key_to_id.__getitem__)
@@ -114,6 +120,8 @@ def symmetric_difference(G, H, *, name="symmetric_difference"):
 def compose(G, H, *, name="compose"):
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
     A = G._A
-- 
2.43.0


From 326202ead0fd484624ff27ea91535b92630ca88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 19/44] fix: generalized_degree of a single node is keyed by
 triangle counts, not by the nodes at those positions

---
 graphblas_algorithms/nxapi/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 7fce0b9..b2c73b2 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -3,6 +3,7 @@ from graphblas import Vector, monoid
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 from graphblas_algorithms.classes.graph import to_undirected_graph
+from graphblas_algorithms.classes.nodemap import VectorMap
 from graphblas_algorithms.utils import not_implemented_for
 
 from ._utils import normalize_chunksize, partition
@@ -126,7 +127,8 @@ def generalized_degree(G, nodes=None):
         return {}
     if nodes in G:
         result = algorithms.single_generalized_degree(G, nodes)
-        return G.vector_to_nodemap(result)
+        # Keys are numbers of triangles, not nodes
+        return VectorMap(result)
     mask = G.list_to_mask(nodes)
     result = algorithms.generalized_degree(G, mask=mask)
     return G.matrix_to_vectornodemap(result)
-- 
2.43.0


From cfa2fc245a9263d521463f8a967de9cfa9380804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 20/44] fix: iso_value of a graph already known not to be
 iso-valued is None, not KeyError

---
 graphblas_algorithms/classes/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index f3e2239..3ac2a1a 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -236,7 +236,7 @@ def get_iso_value(G, mask=None):
                 # SuiteSparse:GraphBLAS
                 cache["iso_value"] = A.ss.iso_value
             else:
-                cache["iso_value"]
+                cache["iso_value"] = None
 
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-- 
2.43.0


From ddb717b26d43571341c54e873c38616e004629c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 21/44] fix: total degrees (which always add up to twice the
 edges) do not tell that a DiGraph has no self-edges

---
 graphblas_algorithms/classes/digraph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 1e9fe5f..b9e15a8 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -364,8 +364,6 @@ def has_self_edges(G, mask=None):
             cache["has_self_edges"] = cache["column_degrees-"].reduce().get(0) < A.nvals
         elif "total_degrees-" in cache:
             cache["has_self_edges"] = cache["total_degrees-"].reduce().get(0) < 2 * A.nvals
-        elif "total_degrees+" in cache:
-            cache["has_self_edges"] = cache["total_degrees+"].reduce().get(0) > 2 * A.nvals
         else:
             G.get_property("diag")
     return cache["has_self_edges"]
-- 
2.43.0


From 9025f91433f37808301289406a1bfab63fe0ae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 22/44] fix: has_negative_diagonal is not inferred from a
 minimum that was never computed

---
 graphblas_algorithms/classes/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 3ac2a1a..2014d86 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -141,9 +141,9 @@ def has_negative_diagonal(G, mask=None):
             cache.get("has_negative_edges+") is True
             and cache.get("has_negative_edges-") is False
             or cache.get("has_negative_edges+") is True
-            and cache.get("min_element-", 0) >= 0
+            and cache.get("min_element-", -1) >= 0
             or cache.get("min_element+", 0) < 0
-            and cache.get("min_element+", 0) < cache.get("min_element-", 0)
+            and cache.get("min_element+", 0) < cache.get("min_element-", float("-inf"))
         ):
             cache["has_negative_diagonal"] = True
         else:
-- 
2.43.0


From 193c475bf7d974ea45985fd89bac07240c8682d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 23/44] fix: reduce the strict triangles to a scalar with a
 method matrices have

---
 graphblas_algorithms/classes/_caching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 3074bed..6828d8a 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -123,8 +123,9 @@ def get_reduce_to_scalar(key, opname):
                     and opclass in {"BinaryOp", "Monoid"}
                     and G.get_property("has_self_edges")
                 ):
-                    return op_(
-                        cache["L-"].reduce(op_)._as_vector() | cache["U-"].reduce(op_)._as_vector()
+                    cache[key] = op_(
+                        cache["L-"].reduce_scalar(op_).new()._as_vector()
+                        | cache["U-"].reduce_scalar(op_).new()._as_vector()
                     )[0].new(name=key)
                 elif not G.get_property("has_self_edges"):
                     cache[key] = G.get_property(f"{keybase}+")
-- 
2.43.0


From 5de89ac8a551d5d042cddfd0001c498342c59eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 24/44] fix: edge counts are not derived by counting the
 entries of a degree vector

---
 graphblas_algorithms/classes/_caching.py | 36 ++++++++++++++++++------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 6828d8a..dd4c838 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -99,6 +99,8 @@ def get_reduce_to_vector(key, opname, methodname):
 def get_reduce_to_scalar(key, opname):
     op_ = op.from_string(opname)
     op_, opclass = operator.find_opclass(op_)
+    # Aggregations such as "count" can't be applied again to their own results
+    composes = opclass in {"BinaryOp", "Monoid"}
     keybase = key[:-1]
     if key[-1] == "-":
 
@@ -107,20 +109,28 @@ def get_reduce_to_scalar(key, opname):
             if key not in cache:
                 if cache.get("has_self_edges") is False and f"{keybase}+" in cache:
                     cache[key] = cache[f"{keybase}+"]
-                elif f"{opname}_rowwise-" in cache:
+                elif composes and f"{opname}_rowwise-" in cache:
                     cache[key] = cache[f"{opname}_rowwise-"].reduce(op_).new(name=key)
-                elif f"{opname}_columnwise-" in cache:
+                elif composes and f"{opname}_columnwise-" in cache:
                     cache[key] = cache[f"{opname}_columnwise-"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_rowwise+" in cache:
+                elif (
+                    composes
+                    and cache.get("has_self_edges") is False
+                    and f"{opname}_rowwise+" in cache
+                ):
                     cache[key] = cache[f"{opname}_rowwise+"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_columnwise+" in cache:
+                elif (
+                    composes
+                    and cache.get("has_self_edges") is False
+                    and f"{opname}_columnwise+" in cache
+                ):
                     cache[key] = cache[f"{opname}_columnwise+"].reduce(op_).new(name=key)
                 elif "offdiag" in cache:
                     cache[key] = cache["offdiag"].reduce_scalar(op_).new(name=key)
                 elif (
                     "L-" in cache
                     and "U-" in cache
-                    and opclass in {"BinaryOp", "Monoid"}
+                    and composes
                     and G.get_property("has_self_edges")
                 ):
                     cache[key] = op_(
@@ -149,13 +159,21 @@ def get_reduce_to_scalar(key, opname):
             if key not in cache:
                 if cache.get("has_self_edges") is False and f"{keybase}-" in cache:
                     cache[key] = cache[f"{keybase}-"]
-                elif f"{opname}_rowwise+" in cache:
+                elif composes and f"{opname}_rowwise+" in cache:
                     cache[key] = cache[f"{opname}_rowwise+"].reduce(op_).new(name=key)
-                elif f"{opname}_columnwise+" in cache:
+                elif composes and f"{opname}_columnwise+" in cache:
                     cache[key] = cache[f"{opname}_columnwise+"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_rowwise-" in cache:
+                elif (
+                    composes
+                    and cache.get("has_self_edges") is False
+                    and f"{opname}_rowwise-" in cache
+                ):
                     cache[key] = cache[f"{opname}_rowwise-"].reduce(op_).new(name=key)
-                elif cache.get("has_self_edges") is False and f"{opname}_columnwise-" in cache:
+                elif (
+                    composes
+                    and cache.get("has_self_edges") is False
+                    and f"{opname}_columnwise-" in cache
+                ):
                     cache[key] = cache[f"{opname}_columnwise-"].reduce(op_).new(name=key)
                 else:
                     cache[key] = A.reduce_scalar(op_).new(name=key)
-- 
2.43.0


From e6e0800e1fff2057f1bc0fe90ada539783a4be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 25/44] fix: NodeNodeMap.get returns the row it looked up

---
 graphblas_algorithms/classes/nodemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2a32502..26a0edc 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -417,7 +417,7 @@ class NodeNodeMap(MutableMapping):
         idx = self._key_to_id[key]
         if self._fill_value is None and self._get_rows().get(idx) is None:
             return default
-        self.vector_to_nodemap(
+        return self.vector_to_nodemap(
             self.matrix[idx, :].new(),
             fill_value=self._fill_value,
             values_are_keys=self._values_are_keys,
-- 
2.43.0


From bf185ca4757c9a45edc2da5a0ec0bd04dab5d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 26/44] fix: VectorMap item access raises KeyError for an
 absent key

---
 graphblas_algorithms/classes/nodemap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 26a0edc..5251e89 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -138,7 +138,9 @@ class VectorMap(MutableMapping):
         del self.vector[key]
 
     def __getitem__(self, key):
-        return self.vector.get(key)
+        if (rv := self.vector.get(key)) is not None:
+            return rv
+        raise KeyError(key)
 
     def __iter__(self):
         # Slow if we iterate over one; fast if we iterate over all
-- 
2.43.0


From e37e1476764d9888d76a04f0dc5cf996d607197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 27/44] fix: default key_to_id of matrix-backed node maps

---
 graphblas_algorithms/classes/nodemap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 5251e89..49b43f1 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -200,7 +200,7 @@ class VectorNodeMap(MutableMapping):
     def __init__(self, A, *, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
@@ -314,7 +314,7 @@ class NodeNodeMap(MutableMapping):
     def __init__(self, A, *, fill_value=None, values_are_keys=False, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
-- 
2.43.0


From f6c11b4188e9ac9cd4889ebee177094b500bca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 28/44] fix: NodeMap.setdefault stores labels as ids when
 values are keys

---
 graphblas_algorithms/classes/nodemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 49b43f1..95c5757 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -122,7 +122,7 @@ class NodeMap(MutableMapping):
         if self._fill_value is not None:
             return self._fill_value
         if default is not None:
-            self.vector[idx] = default
+            self[key] = default
         return default
 
     # update
-- 
2.43.0


From cd065b70fcd41e39e13ecbbca1606613bed34689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 29/44] fix: deleting an absent node from NodeMap or VectorMap
 raises KeyError

---
 graphblas_algorithms/classes/nodemap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 95c5757..84a0783 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -37,6 +37,8 @@ class NodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if self._fill_value is None and idx not in self.vector:
+            raise KeyError(key)
         del self.vector[idx]
 
     def __getitem__(self, key):
@@ -135,6 +137,8 @@ class VectorMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self.vector:
+            raise KeyError(key)
         del self.vector[key]
 
     def __getitem__(self, key):
-- 
2.43.0


From 09f9afb9e85594e7693a2f1545c2770730641710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 30/44] fix: deleting an absent node from VectorNodeMap or
 NodeNodeMap raises KeyError

---
 graphblas_algorithms/classes/nodemap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 84a0783..1bf4d12 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -237,6 +237,8 @@ class VectorNodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if idx not in self._get_rows():
+            raise KeyError(key)
         del self.matrix[idx, :]
         if self._rows is not None:
             del self._rows[idx]
@@ -353,6 +355,8 @@ class NodeNodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if self._fill_value is None and idx not in self._get_rows():
+            raise KeyError(key)
         del self.matrix[idx, :]
         if self._rows is not None:
             del self._rows[idx]
-- 
2.43.0


From a7a3d7605b37f311bde944bc9f0318c223772e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 31/44] fix: NodeNodeMap item assignment translates the node
 labels of a dict to ids

---
 graphblas_algorithms/classes/nodemap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 1bf4d12..12e15d7 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -391,6 +391,11 @@ class NodeNodeMap(MutableMapping):
             # TODO: check val._key_to_id?
             val = val.vector
         elif isinstance(val, dict):
+            key_to_id = self._key_to_id
+            if self._values_are_keys:
+                val = {key_to_id[k]: key_to_id[v] for k, v in val.items()}
+            else:
+                val = {key_to_id[k]: v for k, v in val.items()}
             val = Vector.from_dict(val, self.matrix.dtype, size=self.matrix.ncols)
         else:
             raise TypeError
-- 
2.43.0


From 5f54e656f14a9c14379fbfc6fe23fd248582867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 32/44] fix: node maps with a fill value can remove nodes

---
 graphblas_algorithms/classes/nodemap.py | 28 +++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 12e15d7..e5c1f46 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -1,6 +1,7 @@
 from collections.abc import MutableMapping
 
 from graphblas import Vector, monoid
+from graphblas.dtypes import lookup_dtype, unify
 
 from . import _utils
 
@@ -34,10 +35,19 @@ class NodeMap(MutableMapping):
     vector_to_set = _utils.vector_to_set
     # _cacheit = _utils._cacheit
 
+    def _store_fill_value(self):
+        """Store the fill value explicitly so that entries can be removed."""
+        fill_value, self._fill_value = self._fill_value, None
+        dtype = unify(self.vector.dtype, lookup_dtype(type(fill_value)))
+        self.vector = self.vector.dup(dtype)
+        self.vector(~self.vector.S) << fill_value
+
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
-        if self._fill_value is None and idx not in self.vector:
+        if self._fill_value is not None:
+            self._store_fill_value()
+        elif idx not in self.vector:
             raise KeyError(key)
         del self.vector[idx]
 
@@ -105,6 +115,8 @@ class NodeMap(MutableMapping):
     # pop
 
     def popitem(self):
+        if self._fill_value is not None:
+            self._store_fill_value()
         v = self.vector
         try:
             idx, value = next(v.ss.iteritems())
@@ -352,10 +364,20 @@ class NodeNodeMap(MutableMapping):
     vector_to_set = _utils.vector_to_set
     # _cacheit = _utils._cacheit
 
+    def _store_fill_value(self):
+        """Store the fill value explicitly so that entries can be removed."""
+        fill_value, self._fill_value = self._fill_value, None
+        dtype = unify(self.matrix.dtype, lookup_dtype(type(fill_value)))
+        self.matrix = self.matrix.dup(dtype)
+        self._rows = None
+        self.matrix(~self.matrix.S) << fill_value
+
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
-        if self._fill_value is None and idx not in self._get_rows():
+        if self._fill_value is not None:
+            self._store_fill_value()
+        elif idx not in self._get_rows():
             raise KeyError(key)
         del self.matrix[idx, :]
         if self._rows is not None:
@@ -443,6 +465,8 @@ class NodeNodeMap(MutableMapping):
     # pop
 
     def popitem(self):
+        if self._fill_value is not None:
+            self._store_fill_value()
         rows = self._get_rows()
         try:
             idx = next(rows.ss.iterkeys())
-- 
2.43.0


From de2e70900a58dbfb511699ba43c25e875cc6ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:14 +0000
Subject: [PATCH 33/44] fix: DiGraph.to_undirected keeps one value for both
 directions of an edge

---
 graphblas_algorithms/classes/digraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index b9e15a8..bd9cd93 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -603,10 +603,12 @@ class DiGraph(Graph):
         if as_view:
             raise NotImplementedError("`as_vew=True` is not implemented in `G.to_undirected`")
         A = self._A
+        # If the two directions of an edge have different values, keep the value of the later row
         if reciprocal:
-            B = binary.any(A & A.T).new(name=name)
+            U = select.triu(binary.second(A & A.T)).new()
         else:
-            B = binary.any(A | A.T).new(name=name)
+            U = select.triu(binary.second(A | A.T)).new()
+        B = binary.any(U | U.T).new(name=name)
         return Graph(B, key_to_id=self._key_to_id)
 
     def reverse(self, copy=True):
-- 
2.43.0


From 9bf8c7886cb505f56670fd33dda98adac6864d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:14 +0000
Subject: [PATCH 34/44] fix: difference and symmetric_difference of an
 undirected with a directed graph return symmetric graphs

---
 .../algorithms/operators/binary.py                 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 3fff1b3..752eabb 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -1,5 +1,5 @@
 import numpy as np
-from graphblas import Matrix, binary, dtypes, unary
+from graphblas import Matrix, binary, dtypes, select, unary
 
 from ..exceptions import GraphBlasAlgorithmException
 
@@ -93,7 +93,12 @@ def difference(G, H, *, name="difference"):
         keys = sorted(G._key_to_id, key=G._key_to_id.__getitem__)
         ids = H.list_to_ids(keys)
         B = H._A[ids, ids].new()
-    C = unary.one(A).new(mask=~B.S, name=name)
+    if H.is_directed() and not G.is_directed():
+        # Look up each undirected edge once, from its first node, as NetworkX does
+        C = unary.one(select.triu(A)).new(mask=~B.S)
+        C = binary.any(C | C.T).new(name=name)
+    else:
+        C = unary.one(A).new(mask=~B.S, name=name)
     return type(G)(C, key_to_id=G._key_to_id)
 
 
@@ -113,7 +118,12 @@ def symmetric_difference(G, H, *, name="symmetric_difference"):
         ids = H.list_to_ids(keys)
         B = H._A[ids, ids].new()
     Mask = binary.pair[bool](A & B).new(name="mask")
+    if H.is_directed() and not G.is_directed():
+        # Look up each undirected edge once, from its first node, as NetworkX does
+        A = select.triu(A).new()
     C = binary.pair(A | B, left_default=True, right_default=True).new(mask=~Mask.S, name=name)
+    if H.is_directed() and not G.is_directed():
+        C = binary.any(C | C.T).new(name=name)
     return type(G)(C, key_to_id=G._key_to_id)
 
 
-- 
2.43.0


From f1cf36a496655a18efdb69b9603237536c8e3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 35/44] fix: keep the kind of NetworkX graph in to_graph,
 to_directed_graph and to_undirected_graph

A NetworkX multigraph became a simple graph, so functions that refuse or treat multigraphs differently did not, and
to_undirected_graph built an undirected graph with an asymmetric adjacency matrix from a directed one.
---
 graphblas_algorithms/classes/digraph.py | 9 ++++++---
 graphblas_algorithms/classes/graph.py   | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index bd9cd93..961aace 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -382,7 +382,8 @@ def to_directed_graph(G, weight=None, dtype=None):
         import networkx as nx
 
         if isinstance(G, nx.DiGraph):
-            return DiGraph.from_networkx(G, weight=weight, dtype=dtype)
+            cls = MultiDiGraph if G.is_multigraph() else DiGraph
+            return cls.from_networkx(G, weight=weight, dtype=dtype)
     except ImportError:
         pass
     raise TypeError
@@ -401,9 +402,11 @@ def to_graph(G, weight=None, dtype=None):
         import networkx as nx
 
         if isinstance(G, nx.DiGraph):
-            return DiGraph.from_networkx(G, weight=weight, dtype=dtype)
+            cls = MultiDiGraph if G.is_multigraph() else DiGraph
+            return cls.from_networkx(G, weight=weight, dtype=dtype)
         if isinstance(G, nx.Graph):
-            return ga.Graph.from_networkx(G, weight=weight, dtype=dtype)
+            cls = ga.MultiGraph if G.is_multigraph() else ga.Graph
+            return cls.from_networkx(G, weight=weight, dtype=dtype)
     except ImportError:
         pass
     raise TypeError
diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 2014d86..2babee7 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -252,6 +252,8 @@ def get_iso_value(G, mask=None):
 def to_undirected_graph(G, weight=None, dtype=None):
     # We should do some sanity checks here to ensure we're returning a valid undirected graph
     if isinstance(G, Graph):
+        if G.is_directed():
+            raise TypeError("Expected an undirected graph; got a directed graph")
         return G
     try:
         return Graph(G)
@@ -261,8 +263,9 @@ def to_undirected_graph(G, weight=None, dtype=None):
     try:
         import networkx as nx
 
-        if isinstance(G, nx.Graph):
-            return Graph.from_networkx(G, weight=weight, dtype=dtype)
+        if isinstance(G, nx.Graph) and not G.is_directed():
+            cls = MultiGraph if G.is_multigraph() else Graph
+            return cls.from_networkx(G, weight=weight, dtype=dtype)
     except ImportError:
         pass
 
-- 
2.43.0


From b918ddc92274a163c8b0832fe755e7b12b915210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:24 +0000
Subject: [PATCH 36/44] fix: unreachable pairs are infinite in the array of
 floyd_warshall_numpy

Absent entries of the distance matrix became 0 when converted for NetworkX.
---
 graphblas_algorithms/interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/interface.py b/graphblas_algorithms/interface.py
index c718371..3a1b791 100644
--- a/graphblas_algorithms/interface.py
+++ b/graphblas_algorithms/interface.py
@@ -256,11 +256,13 @@ class Dispatcher:
                 obj = io.to_scipy_sparse(obj)
             elif name in {
                 "directed_modularity_matrix",
-                "floyd_warshall_numpy",
                 "google_matrix",
                 "modularity_matrix",
             }:
                 obj = obj.to_dense(fill_value=False)
+            elif name == "floyd_warshall_numpy":
+                # Pairs without an entry are not connected by a path
+                obj = obj.to_dense(fill_value=float("inf"))
             else:  # pragma: no cover
                 raise RuntimeError(f"Should {name} return a numpy or scipy.sparse array?")
         return obj
-- 
2.43.0


From 76236404fc6021e8315ff44017fc7f48c0d6f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 37/44] fix: generalized_degree has an entry for nodes in no
 triangle

---
 graphblas_algorithms/classes/_utils.py  |  4 ++--
 graphblas_algorithms/classes/nodemap.py | 10 +++++++---
 graphblas_algorithms/nxapi/cluster.py   |  8 +++++++-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index ecf66d9..71e2cba 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -168,10 +168,10 @@ def matrix_to_nodenodemap(self, A, *, fill_value=None, values_are_keys=False):
     return rv
 
 
-def matrix_to_vectornodemap(self, A):
+def matrix_to_vectornodemap(self, A, *, rows=None):
     from .nodemap import VectorNodeMap
 
-    rv = VectorNodeMap(A, key_to_id=self._key_to_id)
+    rv = VectorNodeMap(A, rows=rows, key_to_id=self._key_to_id)
     rv._id_to_key = self._id_to_key
     return rv
 
diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index e5c1f46..a654ac8 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -213,14 +213,14 @@ class VectorMap(MutableMapping):
 
 
 class VectorNodeMap(MutableMapping):
-    def __init__(self, A, *, key_to_id=None):
+    def __init__(self, A, *, rows=None, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
             self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
-        self._rows = None
+        self._rows = rows  # Which nodes are in the map; default is nodes with non-empty rows
 
     def _get_rows(self):
         if self._rows is None:
@@ -295,7 +295,11 @@ class VectorNodeMap(MutableMapping):
 
     def __eq__(self, other):
         if isinstance(other, VectorNodeMap):
-            return self.matrix.isequal(other.matrix) and self._key_to_id == other._key_to_id
+            return (
+                self.matrix.isequal(other.matrix)
+                and self._key_to_id == other._key_to_id
+                and self._get_rows().isequal(other._get_rows())
+            )
         return super().__eq__(other)
 
     def clear(self):
diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index b2c73b2..066539f 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -131,4 +131,10 @@ def generalized_degree(G, nodes=None):
         return VectorMap(result)
     mask = G.list_to_mask(nodes)
     result = algorithms.generalized_degree(G, mask=mask)
-    return G.matrix_to_vectornodemap(result)
+    # The row of a node without neighbors is empty
+    if mask is not None:
+        rows = mask.parent
+    else:
+        rows = Vector(bool, len(G), name="rows")
+        rows << True
+    return G.matrix_to_vectornodemap(result, rows=rows)
-- 
2.43.0


From 4a2524bf2adb837940e2bc38b3720e72e86fe2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 38/44] fix: reciprocity has an entry for every requested node

---
 graphblas_algorithms/nxapi/reciprocity.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/reciprocity.py b/graphblas_algorithms/nxapi/reciprocity.py
index 54192e5..ccbd6ce 100644
--- a/graphblas_algorithms/nxapi/reciprocity.py
+++ b/graphblas_algorithms/nxapi/reciprocity.py
@@ -21,7 +21,12 @@ def reciprocity(G, nodes=None):
         return rv
     mask = G.list_to_mask(nodes)
     result = algorithms.reciprocity(G, mask=mask)
-    return G.vector_to_nodemap(result, mask=mask)
+    rv = G.vector_to_nodemap(result, mask=mask)
+    if result.nvals < mask.parent.nvals:
+        # Not defined for isolated nodes
+        indices, _ = mask.parent.to_coo(values=False)
+        return {key: rv.get(key) for key in G.list_to_keys(indices.tolist())}
+    return rv
 
 
 @not_implemented_for("undirected", "multigraph")
-- 
2.43.0


From c9fee6a493b859caac0a232dd002ff9d1bd08c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:29 +0000
Subject: [PATCH 39/44] fix: bellman_ford_path(_length) to a target reports
 every reachable negative cycle

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 102a575..0678ed9 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -90,7 +90,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if dst_id is None and mask.reduce(monoid.lor) or dst_id is not None and mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     if has_negative_diagonal:
         # We removed diagonal entries above, so check if we visited one with a negative weight
@@ -289,7 +289,7 @@ def bellman_ford_path(G, source, target):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
     if has_negative_diagonal:
-- 
2.43.0


From 350453fcef0c4661c38e8b1c6107db0d04b1117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:46 +0000
Subject: [PATCH 40/44] fix: bellman_ford_path(_length) to a target treats
 self-loops like the other Bellman-Ford functions

---
 .../algorithms/shortest_paths/weighted.py     | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 0678ed9..e3f69fc 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -2,7 +2,7 @@ import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
 
-from .._bfs import _bfs_level, _bfs_levels, _bfs_parent, _bfs_plain
+from .._bfs import _bfs_level, _bfs_levels, _bfs_parent
 from ..exceptions import NoPath, Unbounded
 
 __all__ = [
@@ -81,7 +81,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if dst_id is not None and not is_negative:
+        if dst_id is not None and not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
     else:
@@ -262,7 +262,7 @@ def bellman_ford_path(G, source, target):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if not is_negative:
+        if not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
 
@@ -291,22 +291,13 @@ def bellman_ford_path(G, source, target):
         mask << binary.lt(cur & d)
         if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
-    path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
     if has_negative_diagonal:
-        mask.clear()
-        mask[G.list_to_ids(path)] = True
-        diag = G.get_property("diag", mask=mask.S)
-        if diag.nvals > 0:
+        # We removed diagonal entries above, so check if we visited one with a negative weight
+        diag = G.get_property("diag")
+        cur << select.valuelt(diag, 0)
+        if any_pair(d @ cur):
             raise Unbounded("Negative cycle detected.")
-        mask << binary.first(mask & cur)  # mask(cur.S, replace) << mask
-        if mask.nvals > 0:
-            # Is there a path from any visited node with negative self-loop to target?
-            # We could actually stop as soon as any from `path` is visited
-            indices, _ = mask.to_coo(values=False)[0]
-            q = _bfs_plain(G, target=target, index=indices, cutoff=_i)
-            if dst_id in q:
-                raise Unbounded("Negative cycle detected.")
-    return path
+    return _reconstruct_path_from_parents(G, p, src_id, dst_id)
 
 
 def negative_edge_cycle(G):
-- 
2.43.0


From c711c624cba2cbb962f5f0125aaee23397f8571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:46 +0000
Subject: [PATCH 41/44] fix: bellman_ford_path finds paths when all edges have
 the same negative weight

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index e3f69fc..6911b08 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -220,7 +220,12 @@ def bellman_ford_path(G, source, target):
         if not is_negative:
             p = _bfs_parent(G, source, target)
             return _reconstruct_path_from_parents(G, p, src_id, dst_id)
-        raise Unbounded("Negative cycle detected.")
+        # It's difficult to detect negative cycles with BFS
+        if G._A[src_id, src_id].get() is not None:
+            raise Unbounded("Negative cycle detected.")
+        if not G.is_directed() and G._A[src_id, :].nvals > 0:
+            # For undirected graphs, any negative edge is a cycle
+            raise Unbounded("Negative cycle detected.")
     A, is_negative, has_negative_diagonal = G.get_properties(
         "offdiag has_negative_edges- has_negative_diagonal"
     )
-- 
2.43.0


From 6e91f7041eded2954bba506a5760e62170bc9876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:54 +0000
Subject: [PATCH 42/44] fix: chunk sizes in bytes work for graphs without nodes

---
 graphblas_algorithms/nxapi/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 0bb9617..c103b96 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -80,7 +80,8 @@ def normalize_chunksize(chunksize, itemsize=1, N=None):
             )
         number *= scale
         if chunkstring[-1] == "b":
-            number = max(1, number / itemsize)
+            # `itemsize` is 0 for an empty graph
+            number = max(1, number / max(1, itemsize))
         rv = int(round(number))
     if rv <= 0 or N is not None and rv >= N:
         return None
-- 
2.43.0


From 2d9e584f43cbc63f44de6e548dcf59cd16c16c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:21 +0000
Subject: [PATCH 43/44] fix: a graph without edges is regular

---
 graphblas_algorithms/algorithms/regular.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/regular.py b/graphblas_algorithms/algorithms/regular.py
index cf3a057..a8743fa 100644
--- a/graphblas_algorithms/algorithms/regular.py
+++ b/graphblas_algorithms/algorithms/regular.py
@@ -7,12 +7,14 @@ def is_regular(G):
     if not G.is_directed():
         degrees = G.get_property("degrees+")
         if degrees.nvals != degrees.size:
-            return False
+            # Some nodes have no edges, so no node may have any
+            return degrees.nvals == 0
         d = degrees.get(0)
         return (degrees == d).reduce(monoid.land).get(True)
     row_degrees = G.get_property("row_degrees+")
     if row_degrees.nvals != row_degrees.size:
-        return False
+        # Some nodes have no outgoing edges, so no node may have any
+        return row_degrees.nvals == 0
     column_degrees = G.get_property("column_degrees+")
     if column_degrees.nvals != column_degrees.size:
         return False
@@ -26,5 +28,6 @@ def is_regular(G):
 def is_k_regular(G, k):
     degrees = G.get_property("degrees+")
     if degrees.nvals != degrees.size:
-        return False
+        # Some nodes have no edges
+        return k == 0 and degrees.nvals == 0
     return (degrees == k).reduce(monoid.land).get(True)
-- 
2.43.0


From 992179fc952f0e8d66ad3395d0f253fc1182b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:21 +0000
Subject: [PATCH 44/44] fix: lowest_common_ancestor of nodes in a cycle raises
 NetworkXError

---
 graphblas_algorithms/algorithms/lowest_common_ancestors.py | 4 ++++
 graphblas_algorithms/nxapi/lowest_common_ancestors.py      | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/lowest_common_ancestors.py b/graphblas_algorithms/algorithms/lowest_common_ancestors.py
index 0dfac19..ed1c434 100644
--- a/graphblas_algorithms/algorithms/lowest_common_ancestors.py
+++ b/graphblas_algorithms/algorithms/lowest_common_ancestors.py
@@ -2,6 +2,7 @@ from graphblas import binary, replace
 from graphblas.semiring import any_pair
 
 from ._bfs import _bfs_plain
+from .exceptions import GraphBlasAlgorithmException
 
 __all__ = ["lowest_common_ancestor"]
 
@@ -16,6 +17,9 @@ def lowest_common_ancestor(G, node1, node2, default=None):
     # An alternative strategy would be to walk along successors until there are no more.
     other_ancestors(common_ancestors.S, replace) << any_pair[bool](G._A @ common_ancestors)
     common_ancestors(~other_ancestors.S, replace) << common_ancestors
+    if common_ancestors.nvals == 0:
+        # Every common ancestor precedes another one, so there is a cycle
+        raise GraphBlasAlgorithmException("LCA only defined on directed acyclic graphs.")
     index = common_ancestors.to_coo(values=False)[0][0]
     # XXX: should we return index or key?
     return G.id_to_key[index]
diff --git a/graphblas_algorithms/nxapi/lowest_common_ancestors.py b/graphblas_algorithms/nxapi/lowest_common_ancestors.py
index 98359a7..df928de 100644
--- a/graphblas_algorithms/nxapi/lowest_common_ancestors.py
+++ b/graphblas_algorithms/nxapi/lowest_common_ancestors.py
@@ -2,7 +2,7 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_directed_graph
 from graphblas_algorithms.utils import not_implemented_for
 
-from .exception import NodeNotFound
+from .exception import NetworkXError, NodeNotFound
 
 __all__ = ["lowest_common_ancestor"]
 
@@ -14,3 +14,5 @@ def lowest_common_ancestor(G, node1, node2, default=None):
         return algorithms.lowest_common_ancestor(G, node1, node2, default=default)
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
+    except algorithms.exceptions.GraphBlasAlgorithmException as e:
+        raise NetworkXError(*e.args) from e
-- 
2.43.0

