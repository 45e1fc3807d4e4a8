From b961f39d8205db6f6eb2282f519b2ca56d9aa2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 01/47] fix: reversing a directed graph must drop its cached
 views

---
 dhg/structure/graphs/directed_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 645f652..683f635 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -298,6 +298,7 @@ class DiGraph(BaseGraph):
         r"""Reverse the direction of edges in directed graph.
         """
         self._raw_e_dict = {(dst, src): w for (src, dst), w in self._raw_e_dict.items()}
+        self._clear_cache()
 
     def drop_edges(self, drop_rate: float, ord: str = "uniform"):
         r"""Randomly drop edges from the directed graph. This function will return a new directed graph with non-dropped edges.
-- 
2.43.0


From b8328e2fb7ec5d3aa37d03ae5820ccdbe682d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 02/47] fix: keep vertex weights when a hypergraph is cloned,
 saved, restored or has hyperedges dropped

---
 dhg/structure/hypergraphs/hypergraph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 2390ede..3bbe24c 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -56,7 +56,7 @@ class Hypergraph(BaseHypergraph):
     def state_dict(self) -> Dict[str, Any]:
         r"""Get the state dict of the hypergraph.
         """
-        return {"num_v": self.num_v, "raw_groups": self._raw_groups}
+        return {"num_v": self.num_v, "raw_groups": self._raw_groups, "v_weight": self.v_weight}
 
     def save(self, file_path: Union[str, Path]):
         r"""Save the DHG's hypergraph structure a file.
@@ -148,7 +148,7 @@ class Hypergraph(BaseHypergraph):
     def clone(self) -> "Hypergraph":
         r"""Return a copy of the hypergraph.
         """
-        hg = Hypergraph(self.num_v, device=self.device)
+        hg = Hypergraph(self.num_v, v_weight=deepcopy(self.v_weight), device=self.device)
         hg._raw_groups = deepcopy(self._raw_groups)
         hg.cache = deepcopy(self.cache)
         hg.group_cache = deepcopy(self.group_cache)
@@ -171,7 +171,7 @@ class Hypergraph(BaseHypergraph):
         Args:
             ``state_dict`` (``dict``): The state dict to load the hypergraph.
         """
-        _hg = Hypergraph(state_dict["num_v"])
+        _hg = Hypergraph(state_dict["num_v"], v_weight=deepcopy(state_dict.get("v_weight")))
         _hg._raw_groups = deepcopy(state_dict["raw_groups"])
         return _hg
 
@@ -462,6 +462,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self.v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
@@ -489,6 +490,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self.v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
-- 
2.43.0


From c1e4ad0f5380be1d167bd9d44dce4f40a229b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 03/47] fix: vertex weights of a cleared hypergraph are unit
 weights, not None

---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 3bbe24c..217be9c 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -510,7 +510,7 @@ class Hypergraph(BaseHypergraph):
     def v_weight(self) -> List[float]:
         r"""Return the list of vertex weights.
         """
-        return self._v_weight
+        return super().v_weight
 
     @property
     def e(self) -> Tuple[List[List[int]], List[float]]:
-- 
2.43.0


From 8b2ecc068de3d30ad8242d190d82ecb994894b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 04/47] fix: do not rewrite the caller's hyperedge list in
 place

---
 dhg/structure/base.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 80b853d..8d36b77 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -493,15 +493,9 @@ class BaseHypergraph:
         """
         if len(e_list) > 0 and type(e_list[0]) in (int, float):
             return [tuple(sorted(e_list))]
-        elif type(e_list) == tuple:
-            e_list = list(e_list)
-        elif type(e_list) == list:
-            pass
-        else:
+        elif type(e_list) not in (tuple, list):
             raise TypeError("e_list must be List[int] or List[List[int]].")
-        for _idx in range(len(e_list)):
-            e_list[_idx] = tuple(sorted(e_list[_idx]))
-        return e_list
+        return [tuple(sorted(e)) for e in e_list]
 
     @staticmethod
     def _format_e_list_and_w_on_them(
-- 
2.43.0


From 55e90318f72e1aa49e43e30aa957cccbd6ad53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 05/47] fix: removing an empty edge list is a no-op

---
 dhg/structure/graphs/bipartite_graph.py | 2 ++
 dhg/structure/graphs/directed_graph.py  | 2 ++
 dhg/structure/graphs/graph.py           | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 7c81f53..308164f 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -328,6 +328,8 @@ class BiGraph(BaseGraph):
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edges to be removed.
         """
+        if len(e_list) == 0:
+            return
         e_list, _ = self._format_edges(e_list)
         for src, dst in e_list:
             self._remove_edge(src, dst)
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 683f635..d19598e 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -274,6 +274,8 @@ class DiGraph(BaseGraph):
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edges to be removed.
         """
+        if len(e_list) == 0:
+            return
         e_list, _ = self._format_edges(e_list)
         for src, dst in e_list:
             self._remove_edge(src, dst)
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 82fb6e4..75fb10b 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -331,6 +331,8 @@ class Graph(BaseGraph):
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edges to be removed.
         """
+        if len(e_list) == 0:
+            return
         e_list, _ = self._format_edges(e_list)
         for src, dst in e_list:
             if src > dst:
-- 
2.43.0


From 5195bc7080fc073e12bf3d0d248ef202c86d6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 06/47] fix: softmax aggregation of Graph.v2v without custom
 weights

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 75fb10b..5bb4b9c 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -679,7 +679,7 @@ class Graph(BaseGraph):
             elif aggr == "sum":
                 X = torch.sparse.mm(P, X)
             elif aggr == "softmax_then_sum":
-                P = torch.sparse.mm(P, dim=1)
+                P = torch.sparse.softmax(P, dim=1)
                 X = torch.sparse.mm(P, X)
             else:
                 pass
-- 
2.43.0


From fe1fd0ebca841a807474d7a8318679803d204fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 07/47] fix: missing comma in Hypergraph.vars_for_DL

---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 217be9c..c97010e 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -674,7 +674,7 @@ class Hypergraph(BaseHypergraph):
             "D_e_neg_1",
             "v2e_src",
             "v2e_dst",
-            "v2e_weight" "e2v_src",
+            "v2e_weight", "e2v_src",
             "e2v_dst",
             "e2v_weight",
         ]
-- 
2.43.0


From e3f1b04908fca6aaec6274841912d865e7aa1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 08/47] fix: clique expansion ignores its miu parameter

---
 dhg/structure/graphs/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 5bb4b9c..ccf429f 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -243,7 +243,6 @@ class Graph(BaseGraph):
             ``device`` (``torch.device``): The device to store the graph. Defaults to ``torch.device("cpu")``.
         """
         num_v = hypergraph.num_v
-        miu = 1.0
         adj = miu * hypergraph.H.mm(hypergraph.H_T).coalesce().cpu().clone()
         src_idx, dst_idx = adj._indices()
         edge_mask = src_idx < dst_idx
-- 
2.43.0


From 987e90233230417dce9538a55c44cb9a2b2c44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 09/47] fix: mean aggregation with custom weights divides by
 the weight sum instead of multiplying

---
 dhg/structure/graphs/bipartite_graph.py | 4 ++--
 dhg/structure/graphs/directed_graph.py  | 4 ++--
 dhg/structure/graphs/graph.py           | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 308164f..3d2195e 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -683,7 +683,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -736,7 +736,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_u_neg_1[torch.isinf(D_u_neg_1)] = 0
                 X = D_u_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index d19598e..be90ef6 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -587,7 +587,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
@@ -629,7 +629,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index ccf429f..3cf4d7e 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -693,7 +693,7 @@ class Graph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index c97010e..150d48b 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -1285,7 +1285,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1349,7 +1349,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1484,7 +1484,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -1548,7 +1548,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
-- 
2.43.0


From cf4c69b94c19c21702481c8dd18284ec4ec8cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 10/47] fix: reject negative vertex indices and mismatched
 weight lists when editing graphs

---
 dhg/structure/base.py                   | 4 +++-
 dhg/structure/graphs/bipartite_graph.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 8d36b77..dcef692 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -133,10 +133,12 @@ class BaseGraph:
             e_list = [e_list]
             if e_weight is not None:
                 e_weight = [e_weight]
-        assert np.array(e_list).max() < self._num_v, "Vertex index out of range"
+        e_array = np.array(e_list)
+        assert e_array.min() >= 0 and e_array.max() < self._num_v, "Vertex index out of range"
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 3d2195e..59a08f9 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -197,11 +197,13 @@ class BiGraph(BaseGraph):
             if e_weight is not None:
                 e_weight = [e_weight]
         e_array = np.array(e_list)
+        assert e_array.min() >= 0, "The vertex index in e_list is out of range."
         assert e_array[:, 0].max() < self.num_u, "The u_idx in e_list is out of range."
         assert e_array[:, 1].max() < self.num_v, "The v_idx in e_list is out of range."
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
-- 
2.43.0


From 2ba211f1ec302e0b4590dc29ce30e57769520b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 11/47] fix: reject negative vertices and unknown merge
 operations before changing a hypergraph

---
 dhg/structure/hypergraphs/hypergraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 150d48b..29e49bb 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -342,6 +342,9 @@ class Hypergraph(BaseHypergraph):
         else:
             raise TypeError(f"The type of e_weight should be float or list, but got {type(e_weight)}")
         assert len(e_list) == len(e_weight), "The number of hyperedges and the number of weights are not equal."
+        assert merge_op in ["mean", "sum", "max"], "Hyperedge merge operation must be one of ['mean', 'sum', 'max']"
+        for e in e_list:
+            assert len(e) == 0 or e[0] >= 0, "Vertex index out of range"
 
         for _idx in range(len(e_list)):
             self._add_hyperedge(
-- 
2.43.0


From 8df0a9d1a9d9aa61b70a27dcf230a440381836cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 12/47] fix: HyperGCN reduction with mediators connects the two
 extreme vertices as in the paper

---
 dhg/structure/graphs/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 3cf4d7e..fec8956 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -285,6 +285,8 @@ class Graph(BaseGraph):
                 new_e_weight.append(1.0 / num_v_in_e)
             else:
                 w = 1.0 / (2 * num_v_in_e - 3)
+                new_e_list.append([e[v_a_idx], e[v_b_idx]])
+                new_e_weight.append(w)
                 for mid_v_idx in range(num_v_in_e):
                     if mid_v_idx != v_a_idx and mid_v_idx != v_b_idx:
                         new_e_list.append([e[v_a_idx], e[mid_v_idx]])
@@ -293,7 +295,7 @@ class Graph(BaseGraph):
                         new_e_weight.append(w)
         # remove selfloop
         if remove_selfloop:
-            new_e_list = torch.tensor(new_e_list, dtype=torch.long)
+            new_e_list = torch.tensor(new_e_list, dtype=torch.long).view(-1, 2)
             new_e_weight = torch.tensor(new_e_weight, dtype=torch.float)
             e_mask = (new_e_list[:, 0] != new_e_list[:, 1]).bool()
             new_e_list = new_e_list[e_mask].numpy().tolist()
-- 
2.43.0


From 661c915c6e975fcd61bd616be7001f300636ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 13/47] fix: nearest neighbour graph of one neighbour including
 the center

---
 dhg/structure/graphs/directed_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index be90ef6..7c53bc6 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -230,7 +230,7 @@ class DiGraph(BaseGraph):
             find_tk = k
         else:
             find_tk = k + 1
-        nbr_dist, nbr_idx = tree.query(features, k=find_tk, p=p)
+        nbr_dist, nbr_idx = tree.query(features, k=list(range(1, find_tk + 1)), p=p)
         center_idx = np.arange(num_v).reshape(-1, 1).repeat(find_tk - 1, 1)
         nbr_dist = nbr_dist[:, 1:]
         nbr_idx = nbr_idx[:, 1:]
-- 
2.43.0


From 941611ca453b7c24db7b49df9406e1f064ba581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 14/47] fix: views of a hypergraph without hyperedge groups are
 empty instead of raising

---
 dhg/structure/base.py                   | 8 ++++++++
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index dcef692..0ea6241 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -917,6 +917,8 @@ class BaseHypergraph:
         """
         if self.cache.get("H_v2e") is None:
             _tmp = [self.H_v2e_of_group(name) for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device).coalesce()]
             self.cache["H_v2e"] = torch.cat(_tmp, dim=1)
         return self.cache["H_v2e"]
 
@@ -937,6 +939,8 @@ class BaseHypergraph:
         """
         if self.cache.get("H_e2v") is None:
             _tmp = [self.H_e2v_of_group(name) for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device).coalesce()]
             self.cache["H_e2v"] = torch.cat(_tmp, dim=1)
         return self.cache["H_e2v"]
 
@@ -957,6 +961,8 @@ class BaseHypergraph:
         """
         if self.cache.get("R_v2e") is None:
             _tmp = [self.R_v2e_of_group(name) for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device).coalesce()]
             self.cache["R_v2e"] = torch.cat(_tmp, dim=1)
         return self.cache["R_v2e"]
 
@@ -977,6 +983,8 @@ class BaseHypergraph:
         """
         if self.cache.get("R_e2v") is None:
             _tmp = [self.R_e2v_of_group(name) for name in self.group_names]
+            if len(_tmp) == 0:
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device).coalesce()]
             self.cache["R_e2v"] = torch.cat(_tmp, dim=1)
         return self.cache["R_e2v"]
 
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 29e49bb..df4e32e 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -831,7 +831,7 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("W_e") is None:
             _tmp = [self.W_e_of_group(name)._values().clone() for name in self.group_names]
-            _tmp = torch.cat(_tmp, dim=0).view(-1)
+            _tmp = torch.cat([torch.zeros(0, device=self.device), *_tmp], dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["W_e"] = torch.sparse_coo_tensor(
                 torch.arange(0, _num_e, device=self.device).view(1, -1).repeat(2, 1),
@@ -865,7 +865,7 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("D_v") is None:
             _tmp = [self.D_v_of_group(name)._values().clone() for name in self.group_names]
-            _tmp = torch.vstack(_tmp).sum(dim=0).view(-1)
+            _tmp = torch.vstack([torch.zeros(self.num_v, device=self.device), *_tmp]).sum(dim=0).view(-1)
             self.cache["D_v"] = torch.sparse_coo_tensor(
                 torch.arange(0, self.num_v, device=self.device).view(1, -1).repeat(2, 1),
                 _tmp,
@@ -960,7 +960,7 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("D_e") is None:
             _tmp = [self.D_e_of_group(name)._values().clone() for name in self.group_names]
-            _tmp = torch.cat(_tmp, dim=0).view(-1)
+            _tmp = torch.cat([torch.zeros(0, device=self.device), *_tmp], dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["D_e"] = torch.sparse_coo_tensor(
                 torch.arange(0, _num_e, device=self.device).view(1, -1).repeat(2, 1),
@@ -1027,7 +1027,7 @@ class Hypergraph(BaseHypergraph):
             ``v_idx`` (``int``): The index of the vertex.
         """
         assert v_idx < self.num_v
-        _tmp, e_bias = [], 0
+        _tmp, e_bias = [torch.zeros(0, dtype=torch.long, device=self.device)], 0
         for name in self.group_names:
             _tmp.append(self.N_e_of_group(v_idx, name) + e_bias)
             e_bias += self.num_e_of_group(name)
-- 
2.43.0


From 4b2ad74b71f98e0dfbd13aa2f3a796dd6adc084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 15/47] fix: a vertex repeated inside a hyperedge counts once

---
 dhg/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 0ea6241..cf8c5db 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -494,10 +494,10 @@ class BaseHypergraph:
             ``e_list`` (``List[int]`` or ``List[List[int]]``): The hyperedge list.
         """
         if len(e_list) > 0 and type(e_list[0]) in (int, float):
-            return [tuple(sorted(e_list))]
+            return [tuple(sorted(set(e_list)))]
         elif type(e_list) not in (tuple, list):
             raise TypeError("e_list must be List[int] or List[List[int]].")
-        return [tuple(sorted(e)) for e in e_list]
+        return [tuple(sorted(set(e))) for e in e_list]
 
     @staticmethod
     def _format_e_list_and_w_on_them(
-- 
2.43.0


From 43f40b5c1501e9f52ad6b2319b773b77d414c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 16/47] fix: recommender metrics with a ratio cut-off need
 numpy

---
 dhg/metrics/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 6264a82..3da7d28 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -1,5 +1,6 @@
 from typing import Optional, Union, Tuple, List, Dict
 
+import numpy as np
 import torch
 
 
-- 
2.43.0


From 17a8218351729463b0a5dbcdfd04152e90fc4057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 17/47] fix: precision and recall accept a batch without
 relevant items

---
 dhg/metrics/recommender.py | 4 ++--
 dhg/metrics/retrieval.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 3da7d28..c75e5bb 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -76,7 +76,7 @@ def precision(
         0.5
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() in (0, 1), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     res_list = (pred_seq.sum(dim=1) / k).detach().cpu()
     if ret_batch:
@@ -110,7 +110,7 @@ def recall(
         0.6666666666666666
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() in (0, 1), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     num_true = y_true.sum(dim=1)
     res_list = (pred_seq.sum(dim=1) / num_true).cpu()
diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 5efc906..ae91d25 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -67,7 +67,7 @@ def precision(
         0.5
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() in (0, 1), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     res_list = (pred_seq.sum(dim=1) / k).detach().cpu()
     if ret_batch:
@@ -101,7 +101,7 @@ def recall(
         0.6666666666666666
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() in (0, 1), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     num_true = y_true.sum(dim=1)
     res_list = (pred_seq.sum(dim=1) / num_true).cpu()
-- 
2.43.0


From ae639a460b8ef2a8483fdf018991186adc51dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 18/47] fix: AP, RR and PR curve of a row without relevant
 items are zero, not NaN

---
 dhg/metrics/retrieval.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index ae91d25..e9ee0b6 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -156,6 +156,8 @@ def ap(
     if method == "pascal_voc":
         res = torch.flip(res, dims=(0,))
         res = torch.cummax(res, dim=0)[0]
+    if len(res) == 0:
+        return 0.0
     return res.detach().cpu().mean().item()
 
 
@@ -292,6 +294,8 @@ def rr(y_true: torch.Tensor, y_pred: torch.Tensor, k: Optional[int] = None, rati
 
     pred_seq = y_true[torch.argsort(y_pred, dim=-1, descending=True)][:k]
     pred_index = torch.nonzero(pred_seq).view(-1)
+    if len(pred_index) == 0:
+        return 0.0
     res = (1 / (pred_index + 1)).mean().cpu()
     return res.mean().item()
 
@@ -380,6 +384,8 @@ def _pr_curve(
         res = torch.flip(res, dims=(0,))
     res = res.cpu().numpy()
     recall_coor = np.linspace(0, 1, n_points)
+    if len(res) == 0:
+        return [0.0] * n_points, recall_coor.tolist()
     recall_index = (recall_coor * (torch.sum(y_true).item() - 1)).astype(int)
     precision_coor = res[recall_index]
     return precision_coor.tolist(), recall_coor.tolist()
-- 
2.43.0


From 38d2b03a547626a2b6a256f0ba85742cb16636b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 19/47] fix: a new test epoch must not rewrite results already
 returned

---
 dhg/metrics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index 5dbdfa6..a467385 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -93,7 +93,7 @@ class BaseEvaluator:
         # init batch data containers
         self.validate_res = []
         self.test_res_dict = defaultdict(list)
-        self.last_validate_res, self.last_test_res = None, {}
+        self.last_validate_res, self.last_test_res = None, None
 
     @abc.abstractmethod
     def __repr__(self) -> str:
@@ -153,6 +153,7 @@ class BaseEvaluator:
         if self.test_res_dict == {} and self.last_test_res is not None:
             return self.last_test_res
         assert self.test_res_dict != {}, "No batch data added for testing."
+        self.last_test_res = {}
         for name, res_list in self.test_res_dict.items():
             if not isinstance(res_list[0], list):
                 self.last_test_res[name] = np.vstack(res_list).mean(0).squeeze().tolist()
-- 
2.43.0


From c962a6420e0f1cf3577a33b794c37659630359b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 20/47] fix: a rejected test batch is not partly accounted

---
 dhg/metrics/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index a467385..a01144a 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -131,8 +131,8 @@ class BaseEvaluator:
             ``batch_y_true`` (``torch.Tensor``): The ground truth data. Size :math:`(N_{batch}, -)`.
             ``batch_y_pred`` (``torch.Tensor``): The predicted data. Size :math:`(N_{batch}, -)`.
         """
-        for name, func in zip(self.marker_list, self.func_list):
-            batch_res = func(batch_y_true, batch_y_pred, ret_batch=True)
+        all_res = [func(batch_y_true, batch_y_pred, ret_batch=True) for func in self.func_list]
+        for name, batch_res in zip(self.marker_list, all_res):
             if not isinstance(batch_res, tuple):
                 batch_res = np.array(batch_res)
                 if len(batch_res.shape) == 1:
-- 
2.43.0


From 33019b326a8920cee9e0b8993f4581f12df22684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:10 +0000
Subject: [PATCH 21/47] fix: splits cover every class, also with gaps in the
 labels or a single item

---
 dhg/utils/dataset_split.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index 9309661..094698a 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -53,11 +53,8 @@ def split_by_num(
     if isinstance(v_label, torch.Tensor):
         v_label = v_label.detach().cpu().numpy()
     assert isinstance(v_label, np.ndarray)
-    v_label = v_label.squeeze().astype(int)
+    v_label = np.atleast_1d(v_label.squeeze()).astype(int)
     assert v_label.ndim == 1
-    if v_label.min() == 1:
-        v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
 
     train_idx, test_idx = [], []
     val_num = val_num if val_num is not None else 0
@@ -66,7 +63,7 @@ def split_by_num(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in np.unique(v_label):
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         random.shuffle(lbl_v_idx)
         train_idx.extend(lbl_v_idx[:train_num])
@@ -114,11 +111,8 @@ def split_by_ratio(
     if isinstance(v_label, torch.Tensor):
         v_label = v_label.detach().cpu().numpy()
     assert isinstance(v_label, np.ndarray)
-    v_label = v_label.squeeze().astype(int)
+    v_label = np.atleast_1d(v_label.squeeze()).astype(int)
     assert v_label.ndim == 1
-    if v_label.min() == 1:
-        v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
 
     val_ratio = val_ratio if val_ratio is not None else 0
     if test_ratio is not None:
@@ -132,7 +126,7 @@ def split_by_ratio(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in np.unique(v_label):
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         _num = lbl_v_idx.shape[0]
         random.shuffle(lbl_v_idx)
-- 
2.43.0


From d74bfcaf1dcaf10c6bf0cd7127eeff87b3e6bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 22/47] fix: files outside the cache directory can be
 downloaded

---
 dhg/utils/download.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index b7c0f6c..027a71d 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -68,8 +68,11 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     from dhg._global import CACHE_ROOT
     LEGACY_CACHE_ROOT = Path.home() / ".dhg"
 
-    legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
-    if legacy_path is None or not legacy_path.exists(): return False
+    try:
+        legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
+    except ValueError: # The file does not belong to the cache, so there is no old-version copy of it.
+        return False
+    if not legacy_path.exists(): return False
     file_path.parent.mkdir(parents=True, exist_ok=True)
     shutil.move(legacy_path, file_path)
     try:
-- 
2.43.0


From 1252b89ac5fb8b9fa83358ce520b7cd5f035ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 23/47] fix: a broken download does not leave an incomplete
 file behind

---
 dhg/utils/download.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index 027a71d..dc3ed10 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -17,10 +17,14 @@ def download_file(url: str, file_path: Path):
     r = requests.get(url, stream=True, verify=True)
     if r.status_code != 200:
         raise requests.HTTPError(f"{url} is not accessible.")
-    with open(file_path, 'wb') as f:
-        for chunk in r.iter_content(chunk_size=1024):
-            if chunk:
-                f.write(chunk)
+    try:
+        with open(file_path, 'wb') as f:
+            for chunk in r.iter_content(chunk_size=1024):
+                if chunk:
+                    f.write(chunk)
+    except BaseException: # Do not leave an incomplete file behind.
+        file_path.unlink(missing_ok=True)
+        raise
 
 
 def check_file(file_path: Path, md5: str):
-- 
2.43.0


From b2a99f7353db75d4a88e2457a6058a4708551b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 24/47] fix: a dataset item whose value is None is loaded once

---
 dhg/data/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/data/base.py b/dhg/data/base.py
index ade2a8e..e0b0eb2 100644
--- a/dhg/data/base.py
+++ b/dhg/data/base.py
@@ -66,7 +66,7 @@ class BaseData:
     def __getitem__(self, key: str) -> Any:
         if self.needs_to_load(key):
             cur_cfg = self._content[key]
-            if cur_cfg.get("cache", None) is None:
+            if "cache" not in cur_cfg:
                 # get raw data
                 item = self.raw(key)
                 # preprocess and cache
@@ -84,7 +84,7 @@ class BaseData:
         """
         if self.needs_to_load(key):
             cur_cfg = self._content[key]
-            if self._raw.get(key, None) is None:
+            if key not in self._raw:
                 upon = cur_cfg["upon"]
                 if len(upon) == 0:
                     return None
-- 
2.43.0


From 72e4367310c724286fcef16a8d62927fcb830586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 25/47] fix: fast random graph generators accept probabilities
 zero and one

---
 dhg/random/graphs/directed_graph.py | 4 +++-
 dhg/random/graphs/graph.py          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 1861253..4c57e20 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -43,7 +43,9 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
-    lp = math.log(1.0 - prob)
+    if prob == 0 or prob == 1:
+        return digraph_Gnp(num_v, prob)
+    lp = math.log1p(-prob)
     e_list = []
     # w -> v
     v, w = 1, -1
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 5977b52..434c846 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -44,8 +44,10 @@ def graph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
+    if prob == 0 or prob == 1:
+        return graph_Gnp(num_v, prob)
     e_list = []
-    lp = math.log(1.0 - prob)
+    lp = math.log1p(-prob)
     v, w = 1, -1
     while v < num_v:
         lr = math.log(1.0 - random.random())
-- 
2.43.0


From 7cceca60e459c6229890eb963d7cbd7f450d3c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 26/47] fix: random graphs can have all possible edges

---
 dhg/random/graphs/directed_graph.py | 2 +-
 dhg/random/graphs/graph.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 4c57e20..cfcfeba 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -86,7 +86,7 @@ def digraph_Gnm(num_v: int, num_e: int):
     """
 
     assert num_v > 1, "num_v must be greater than 1"
-    assert num_e < num_v * (
+    assert num_e <= num_v * (
         num_v - 1
     ), "the specified num_e is larger than the possible number of edges"
 
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 434c846..4defae9 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -76,7 +76,7 @@ def graph_Gnm(num_v: int, num_e: int):
     """
     assert num_v > 1, "num_v must be greater than 1"
     assert (
-        num_e < num_v * (num_v - 1) // 2
+        num_e <= num_v * (num_v - 1) // 2
     ), "the specified num_e is larger than the possible number of edges"
 
     v_list = list(range(num_v))
-- 
2.43.0


From 1924e8b50fa8cfbab3bea33d25774457f6886645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 27/47] fix: random hypergraphs with more hyperedges than
 possible are refused instead of looping forever

---
 dhg/random/hypergraphs/hypergraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dhg/random/hypergraphs/hypergraph.py b/dhg/random/hypergraphs/hypergraph.py
index a0948b7..01809d8 100644
--- a/dhg/random/hypergraphs/hypergraph.py
+++ b/dhg/random/hypergraphs/hypergraph.py
@@ -1,3 +1,4 @@
+import math
 import random
 import itertools
 from typing import Optional, List
@@ -51,6 +52,7 @@ def uniform_hypergraph_Gnm(k: int, num_v: int, num_e: int):
     assert k > 1, "k must be greater than 1"  # TODO ?
     assert num_v > 1, "num_v must be greater than 1"
     assert num_e > 0, "num_e must be greater than 0"
+    assert num_e <= math.comb(num_v, k), "the specified num_e is larger than the possible number of hyperedges"
 
     edges = set()
     while len(edges) < num_e:
@@ -107,6 +109,8 @@ def hypergraph_Gnm(num_v: int, num_e: int, method:str="low_order_first", prob_k_
         prob_k_list = [prob_k / sum_of_prob_k_list for prob_k in prob_k_list]
     else:
         raise ValueError(f"Unknown method: {method}")
+    max_num_e = sum(math.comb(num_v, k) for k, prob_k in zip(deg_e_list, prob_k_list) if prob_k > 0)
+    assert num_e <= max_num_e, "the specified num_e is larger than the possible number of hyperedges"
 
     edges = set()
     while len(edges) < num_e:
-- 
2.43.0


From fb05e2e141fb35ebfce9378303c3e37bf0ab000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:38 +0000
Subject: [PATCH 28/47] fix: experiments that minimize the validation score
 keep their best model

---
 dhg/experiments/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 211286f..056094f 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -107,9 +107,12 @@ class BaseTask:
             if scheduler is not None:
                 scheduler.step()
             if self.direction == "maximize":
-                if val_res > best_score:
-                    best_score = val_res
-                    best_model = deepcopy(model)
+                improved = val_res > best_score
+            else:
+                improved = val_res < best_score
+            if improved:
+                best_score = val_res
+                best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
         self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
-- 
2.43.0


From 03b15721103e83003e4ca1facf14387b3c2f8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:38 +0000
Subject: [PATCH 29/47] fix: recommender experiments run without a structure

---
 dhg/experiments/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 056094f..264b53d 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -115,7 +115,8 @@ class BaseTask:
                 best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
-        self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
+        if self.data.get("structure", None) is not None:
+            self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
         return best_score
 
     def _remove_cached_data(self):
@@ -143,9 +144,11 @@ class BaseTask:
         self._remove_cached_data()
         self.best_model = self.model_builder(self.study.best_trial)
         self.best_model.load_state_dict(torch.load(f"{self.cache_root}/{self.study.best_trial.number}_model.pth"))
-        self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
         self.best_model = self.best_model.to(self.device)
-        self.best_structure = self.best_structure.to(self.device)
+        self.best_structure = None
+        if self.data.get("structure", None) is not None:
+            self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
+            self.best_structure = self.best_structure.to(self.device)
 
         self.logger.info("Best trial:")
         self.best_trial = self.study.best_trial
-- 
2.43.0


From 04c5b0d6f4da8c1a2f8334e81cadb62505e1920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 30/47] fix: adjacency rows with a single vertex or no vertex
 can be renumbered

---
 dhg/utils/structure.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/dhg/utils/structure.py b/dhg/utils/structure.py
index 207d4e5..d8de2cb 100644
--- a/dhg/utils/structure.py
+++ b/dhg/utils/structure.py
@@ -157,18 +157,15 @@ def remap_adj_list(
     if bipartite_graph:
         u_set, v_set = set(), set()
         for line in adj_list:
-            if len(line) <= 1:
-                continue
-            u_set.add(line[0])
-            for v in line[1:]:
-                v_set.add(v)
+            u_set.update(line[:1])
+            v_set.update(line[1:])
         u_list, v_list = sorted(u_set), sorted(v_set)
         u_map, v_map = (
             {raw_u: new_u for new_u, raw_u in enumerate(u_list)},
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_list = [
-            [u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list
+            [u_map[u] for u in line[:1]] + [v_map[v] for v in line[1:]] for line in adj_list
         ]
         if ret_map:
             return adj_list, u_map, v_map
@@ -177,10 +174,7 @@ def remap_adj_list(
     else:
         v_set = set()
         for line in adj_list:
-            if len(line) <= 1:
-                continue
-            for v in line:
-                v_set.add(v)
+            v_set.update(line)
         v_list = sorted(v_set)
         v_map = {raw_v: new_v for new_v, raw_v in enumerate(v_list)}
         adj_list = [[v_map[v] for v in line] for line in adj_list]
@@ -210,18 +204,15 @@ def remap_adj_lists(
         u_set, v_set = set(), set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
-                    continue
-                u_set.add(line[0])
-                for v in line[1:]:
-                    v_set.add(v)
+                u_set.update(line[:1])
+                v_set.update(line[1:])
         u_list, v_list = sorted(u_set), sorted(v_set)
         u_map, v_map = (
             {raw_u: new_u for new_u, raw_u in enumerate(u_list)},
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_lists = [
-            [[u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list]
+            [[u_map[u] for u in line[:1]] + [v_map[v] for v in line[1:]] for line in adj_list]
             for adj_list in adj_lists
         ]
         if ret_map:
@@ -232,10 +223,7 @@ def remap_adj_lists(
         v_set = set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
-                    continue
-                for v in line:
-                    v_set.add(v)
+                v_set.update(line)
         v_list = sorted(v_set)
         v_map = {raw_v: new_v for new_v, raw_v in enumerate(v_list)}
         adj_lists = [
-- 
2.43.0


From ca5a1bf4f9a602605f5ff143d1331c74ca0d771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:15 +0000
Subject: [PATCH 31/47] fix: the number of combinations is exact and zero when
 there are too few items

---
 dhg/utils/math.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/dhg/utils/math.py b/dhg/utils/math.py
index 955c7a0..f5c4d13 100644
--- a/dhg/utils/math.py
+++ b/dhg/utils/math.py
@@ -1,14 +1,7 @@
-from math import log, exp
+from math import comb
 
 
 def C(n, m):
-    r""" Compute the C(n, m) function.
-        log(C(n, m)) = log(n!/(n-m)!) - log m!
-                     = log(n-m+1) + log(n-m+2) + ...
-                        - (log 1 + log 2 + ...)
+    r""" Compute the number of combinations :math:`C(n, m)` exactly.
     """
-    log_value = 0
-    m = min(m, n - m)
-    for i in range(1, m + 1):
-        log_value = log_value + log(n - m + i) - log(i)
-    return int(round(exp(log_value), 0))
+    return comb(n, m)
-- 
2.43.0


From b414e161383c6c5f717d2a700981cedbb6cf5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 32/47] fix: attention layers accept structures with a single
 connection

---
 dhg/nn/convs/graphs/gat_conv.py         | 2 +-
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/nn/convs/graphs/gat_conv.py b/dhg/nn/convs/graphs/gat_conv.py
index 91996f6..74d1274 100644
--- a/dhg/nn/convs/graphs/gat_conv.py
+++ b/dhg/nn/convs/graphs/gat_conv.py
@@ -48,7 +48,7 @@ class GATConv(nn.Module):
         x_for_src = self.atten_src(X)
         x_for_dst = self.atten_dst(X)
         e_atten_score = x_for_src[g.e_src] + x_for_dst[g.e_dst]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index cc67be8..7dfb6e8 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -136,7 +136,7 @@ class UniGATConv(nn.Module):
         # ===============================================
         alpha_e = self.atten_e(Y)
         e_atten_score = alpha_e[hg.e2v_src]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
-- 
2.43.0


From 6e2ee89924b1481a7123e801d9ebfc5275a451a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 33/47] fix: the epsilon of the UniGIN layer scales the
 vertex's own features as documented

---
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index 7dfb6e8..a01388f 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -272,7 +272,7 @@ class UniGINConv(nn.Module):
         """
         X = self.theta(X)
         Y = hg.v2e(X, aggr="mean")
-        X = (1 + self.eps) * hg.e2v(Y, aggr="sum") + X
+        X = (1 + self.eps) * X + hg.e2v(Y, aggr="sum")
         if not self.is_last:
             X = self.act(X)
             if self.bn is not None:
-- 
2.43.0


From 0aeaef88b7d24569d187b6448722d7f4f3630698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 34/47] fix: drawings use the given font size

---
 dhg/visualization/structure/draw.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 339fbae..d76eb51 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -63,7 +63,9 @@ def draw_graph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_style(g.num_v, g.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -130,7 +132,9 @@ def draw_digraph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, _ = default_style(g.num_v, g.num_e, v_color, e_color, None)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -313,7 +317,9 @@ def draw_hypergraph(
     num_v, e_list = hg.num_v, deepcopy(hg.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_hypergraph_style(hg.num_v, hg.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_hypergraph_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
-- 
2.43.0


From 7e778aacbb3d4d7db748357062b211e65d382fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 35/47] fix: drawings use the given vertex line widths

---
 dhg/visualization/structure/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index ac0af3b..48e35f5 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -133,9 +133,8 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size, width in zip(v_coor.tolist(), v_label, v_size, v_line_width):
+    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
         circle = Circle(coor, size)
-        circle.lineWidth = width
         # circle.label = label
         if label != '':
             x, y = coor[0], coor[1]
@@ -144,7 +143,7 @@ def draw_vertex(
             y += offset[1]
             ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
-    p = PatchCollection(patches, facecolors=v_color, edgecolors="black")
+    p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
 
 
-- 
2.43.0


From b6b0c1a1dcb14d2734df05f43f41d44186b9b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 36/47] fix: bipartite drawings label each side with its own
 labels and font size

---
 dhg/visualization/structure/draw.py  |  6 ++++--
 dhg/visualization/structure/utils.py | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index d76eb51..2367db3 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -256,11 +256,13 @@ def draw_bigraph(
     else:
         raise ValueError("e_style must be 'line'")
 
+    u_label = [""] * num_u if u_label is None else list(u_label)
+    v_label = [""] * num_v if v_label is None else list(v_label)
     draw_vertex(
         ax,
         np.vstack([u_coor, v_coor]),
-        list(u_label) + list(v_label) if u_label is not None and v_label is not None else None,
-        u_font_size + v_font_size,
+        u_label + v_label,
+        [u_font_size] * num_u + [v_font_size] * num_v,
         font_family,
         u_size + v_size,
         u_color + v_color,
diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index 48e35f5..dd3483b 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -1,5 +1,5 @@
 from itertools import chain
-from typing import Optional, List, Tuple
+from typing import Optional, List, Tuple, Union
 
 import matplotlib
 import numpy as np
@@ -123,7 +123,7 @@ def draw_vertex(
     ax: matplotlib.axes.Axes,
     v_coor: List[Tuple[float, float]],
     v_label: Optional[List[str]],
-    font_size: int,
+    font_size: Union[float, list],
     font_family: str,
     v_size: list,
     v_color: list,
@@ -133,7 +133,9 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
+    if not isinstance(font_size, list):
+        font_size = [font_size] * n
+    for coor, label, size, f_size in zip(v_coor.tolist(), v_label, v_size, font_size):
         circle = Circle(coor, size)
         # circle.label = label
         if label != '':
@@ -141,7 +143,7 @@ def draw_vertex(
             offset = 0, -1.3 * size
             x += offset[0]
             y += offset[1]
-            ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
+            ax.text(x, y, label, fontsize=f_size, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
     p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
-- 
2.43.0


From e76edf30dc2d25fad57b563e7be4604f39561638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 37/47] fix: the bipartite layout pulls the vertices joined by
 an edge together

---
 dhg/visualization/structure/layout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/visualization/structure/layout.py b/dhg/visualization/structure/layout.py
index c1c4600..1b945e5 100644
--- a/dhg/visualization/structure/layout.py
+++ b/dhg/visualization/structure/layout.py
@@ -57,6 +57,7 @@ def bipartite_force_layout(
         },
         centers=centers,
     )
+    e_list = [(u, v + num_u) for u, v in e_list]
     pos = sim.simulate(pos, edge_list_to_incidence_matrix(num_v + num_u, e_list))
     # pos = (pos - np.mean(pos, axis=0)) / np.std(pos, axis=0)
     pos = (pos - pos.min(0)) / (pos.max(0) - pos.min(0)) * 0.8 + 0.1
-- 
2.43.0


From ef10e09c97dc15dc6ce0f46e2c5d33fe47737f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 38/47] fix: drawings reject color and label lists of the wrong
 length

---
 dhg/visualization/structure/defaults.py | 1 +
 dhg/visualization/structure/draw.py     | 1 +
 dhg/visualization/structure/utils.py    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/dhg/visualization/structure/defaults.py b/dhg/visualization/structure/defaults.py
index 05ccf97..7239c59 100644
--- a/dhg/visualization/structure/defaults.py
+++ b/dhg/visualization/structure/defaults.py
@@ -196,6 +196,7 @@ def fill_color(custom_color: Optional[Union[str, list]], default_color: Any, len
         return [default_color] * length
     elif isinstance(custom_color, list):
         if isinstance(custom_color[0], str) or isinstance(custom_color[0], tuple) or isinstance(custom_color[0], list):
+            assert len(custom_color) == length, "The specified color list has the wrong length."
             return custom_color
         else:
             return [custom_color] * length
diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 2367db3..46e5866 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -258,6 +258,7 @@ def draw_bigraph(
 
     u_label = [""] * num_u if u_label is None else list(u_label)
     v_label = [""] * num_v if v_label is None else list(v_label)
+    assert len(u_label) == num_u and len(v_label) == num_v, "The specified label list has the wrong length."
     draw_vertex(
         ax,
         np.vstack([u_coor, v_coor]),
diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index dd3483b..2529495 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -133,6 +133,7 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
+    assert len(v_label) == n, "The specified label list has the wrong length."
     if not isinstance(font_size, list):
         font_size = [font_size] * n
     for coor, label, size, f_size in zip(v_coor.tolist(), v_label, v_size, font_size):
-- 
2.43.0


From 5108f84ec0ac7733a83e95e9beb4ead7c83171ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 39/47] fix: a single vertex is drawn in the center

---
 dhg/visualization/structure/layout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/visualization/structure/layout.py b/dhg/visualization/structure/layout.py
index 1b945e5..8235819 100644
--- a/dhg/visualization/structure/layout.py
+++ b/dhg/visualization/structure/layout.py
@@ -28,6 +28,8 @@ def force_layout(
         centers=centers,
     )
     v_coor = sim.simulate(v_coor, edge_list_to_incidence_matrix(num_v, e_list))
+    if num_v == 1:
+        return np.full((1, 2), 0.5)
     v_coor = (v_coor - v_coor.min(0)) / (v_coor.max(0) - v_coor.min(0)) * 0.8 + 0.1
     return v_coor
 
-- 
2.43.0


From a4ca823582be7a874f9dfb4dab19aa5daf410370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 40/47] fix: hypergraphs with the same hyperedge in two groups
 can be drawn

---
 dhg/visualization/structure/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/simulator.py b/dhg/visualization/structure/simulator.py
index 8a061d2..02b82fd 100644
--- a/dhg/visualization/structure/simulator.py
+++ b/dhg/visualization/structure/simulator.py
@@ -134,7 +134,7 @@ class Simulator:
         """
         Edge repulsed by other edges.
         """
-        dist = e2e_dist.copy()
+        dist = np.maximum(e2e_dist, 1e-6)
         r, c = np.diag_indices_from(dist)
         dist[r, c] = np.inf
 
-- 
2.43.0


From bd7cec3508c4137f04fb0a5ff3523f8963cfb2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 41/47] fix: vertices whose outlines contain each other can be
 drawn

---
 dhg/visualization/structure/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/geometry.py b/dhg/visualization/structure/geometry.py
index e15e11b..d238eff 100644
--- a/dhg/visualization/structure/geometry.py
+++ b/dhg/visualization/structure/geometry.py
@@ -24,7 +24,7 @@ def vlen(vector):
 
 
 def common_tangent_radian(r1, r2, d):
-    alpha = math.acos(abs(r2 - r1) / d)
+    alpha = math.acos(min(abs(r2 - r1) / d, 1.0))
     alpha = alpha if r1 > r2 else pi - alpha
     return alpha
 
-- 
2.43.0


From 9d5a8fcd09e483d684db0a9ea2455d8f50505add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 42/47] fix: self-loops are drawn

---
 dhg/visualization/structure/utils.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index 2529495..88d97dd 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -40,6 +40,20 @@ def draw_line_edge(
         start_pos = v_coor[e[0]]
         end_pos = v_coor[e[1]]
 
+        if e[0] == e[1]:
+            # a self-loop is a ring on top of its vertex
+            size = v_size[e[0]]
+            ax.add_patch(
+                Circle(
+                    (start_pos[0], start_pos[1] + size),
+                    size,
+                    fill=False,
+                    edgecolor=e_color[eidx],
+                    linewidth=e_line_width[eidx],
+                )
+            )
+            continue
+
         dir = end_pos - start_pos
         dir = dir / np.linalg.norm(dir)
 
@@ -166,7 +180,7 @@ def hull_layout(n_v, e_list, pos, v_size, radius_increment=0.3):
     # for edge in e_list:
     for e_idx in e_idxs:
 
-        edge = list(e_list[e_idx])
+        edge = sorted(set(e_list[e_idx]))
 
         line_path_for_e = []
         arc_path_for_e = []
-- 
2.43.0


From 207f27e66d8a70d4f90f384093f048ec3ce3e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 43/47] fix: embeddings with a zero row can be projected to the
 Poincare ball

---
 dhg/visualization/feature/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/visualization/feature/utils.py b/dhg/visualization/feature/utils.py
index fa69183..0b1a920 100644
--- a/dhg/visualization/feature/utils.py
+++ b/dhg/visualization/feature/utils.py
@@ -156,7 +156,7 @@ def project_to_poincare_ball(embeddings: np.ndarray, dim: int = 2, reduce_method
     assert reduce_method in ["pca", "tsne"], "reduce_method must be pca or tsne."
     # Curvature
     c = 2.0
-    embeddings = embeddings / LA.norm(embeddings, axis=1, keepdims=True)
+    embeddings = embeddings / np.clip(LA.norm(embeddings, axis=1, keepdims=True), a_min=min_norm, a_max=None)
     o = np.zeros_like(embeddings)
     embeddings = np.concatenate([o[:, 0:1], embeddings], axis=1)
     # H encoder Pre-stage
-- 
2.43.0


From dfdb6f82054bf46b6a92ba4e59f2186bd336524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 44/47] fix: embeddings that are constant along an axis can be
 projected and drawn

---
 dhg/visualization/feature/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dhg/visualization/feature/utils.py b/dhg/visualization/feature/utils.py
index 0b1a920..e239320 100644
--- a/dhg/visualization/feature/utils.py
+++ b/dhg/visualization/feature/utils.py
@@ -83,7 +83,9 @@ def plot_3d_embedding(embeddings: np.ndarray, label: Optional[np.ndarray] = None
 
 # normalization
 def normalize(coor):
-    return (coor - coor.min(0)) / (coor.max(0) - coor.min(0)) * 0.8 + 0.1
+    coor_range = coor.max(0) - coor.min(0)
+    coor_range[coor_range == 0] = 1
+    return (coor - coor.min(0)) / coor_range * 0.8 + 0.1
 
 
 # for poincare_ball
@@ -172,7 +174,9 @@ def project_to_poincare_ball(embeddings: np.ndarray, dim: int = 2, reduce_method
         raise ValueError("reduce_method must be pca or tsne.")
     x_min, x_max = np.min(emb_low, 0), np.max(emb_low, 0)
     # Normalisation
-    emb_low = (emb_low - x_min) / (x_max - x_min)
+    x_range = x_max - x_min
+    x_range[x_range == 0] = 1
+    emb_low = (emb_low - x_min) / x_range
     min_max_scaler = preprocessing.MinMaxScaler(feature_range=(-2, 2))
     emb_low = min_max_scaler.fit_transform(emb_low)
     # Important step
-- 
2.43.0


From 6d470547798c09dfd3dbe7b2c9cace1b41470fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 45/47] fix: connections dropped in message passing take no
 part in the softmax

---
 dhg/utils/sparse.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dhg/utils/sparse.py b/dhg/utils/sparse.py
index c69dfbc..be4b5c2 100644
--- a/dhg/utils/sparse.py
+++ b/dhg/utils/sparse.py
@@ -16,10 +16,16 @@ def sparse_dropout(sp_mat: torch.Tensor, p: float, fill_value: float = 0.0) -> t
         return sp_mat
     p = torch.ones(sp_mat._nnz(), device=device) * p
     keep_mask = torch.bernoulli(1 - p).to(device)
-    fill_values = torch.logical_not(keep_mask) * fill_value
+    indices, values = sp_mat._indices(), sp_mat._values()
+    if fill_value == 0:
+        # a dropped element is absent: a stored zero would still take part in a sparse softmax
+        keep_mask = keep_mask.bool()
+        indices, values = indices[:, keep_mask], values[keep_mask]
+    else:
+        values = values * keep_mask + torch.logical_not(keep_mask) * fill_value
     new_sp_mat = torch.sparse_coo_tensor(
-        sp_mat._indices(),
-        sp_mat._values() * keep_mask + fill_values,
+        indices,
+        values,
         size=sp_mat.size(),
         device=sp_mat.device,
         dtype=sp_mat.dtype,
-- 
2.43.0


From d787fc4cd9ed6c7ec3569da17ba4056ef91b7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 46/47] fix: graphs with integer edge weights have the same
 matrices and messages as with float weights

---
 dhg/structure/base.py                   | 2 ++
 dhg/structure/graphs/bipartite_graph.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index cf8c5db..315b3e1 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -139,6 +139,8 @@ class BaseGraph:
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
         assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
+        # whole-number weights must not turn the matrices into integer tensors
+        e_weight = [float(w) for w in e_weight]
         return e_list, e_weight
 
     # =====================================================================================
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 59a08f9..eee99f3 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -204,6 +204,8 @@ class BiGraph(BaseGraph):
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
         assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
+        # whole-number weights must not turn the matrices into integer tensors
+        e_weight = [float(w) for w in e_weight]
         return e_list, e_weight
 
     # =====================================================================================
-- 
2.43.0


From 1ab9fc558897fb0df82c5214c8a8b80a8c37f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 47/47] fix: UniGCN averages the degrees of all members of a
 hyperedge, isolated ones included

---
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index a01388f..360c016 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -64,7 +64,7 @@ class UniGCNConv(nn.Module):
         # scatter_reduce() is relay on the torch 1.12.1, which may be updated in the future
         _Dv = hg.D_v.clone()._values()[hg.v2e_src]
         _De = _De.scatter_reduce(0, index=hg.v2e_dst, src=_Dv, reduce="sum") / _De.scatter_reduce(
-            0, index=hg.v2e_dst, src=(_Dv != 0).type_as(_De), reduce="sum")
+            0, index=hg.v2e_dst, src=torch.ones_like(_Dv), reduce="sum")
         _De = _De.pow(-0.5)
         _De[_De.isinf()] = 1
         Y = _De.view(-1, 1) * Y
-- 
2.43.0

