From df0dbd959a4fa77b737c68fa95f6ec86c8d08e27 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 01/42] fix: accept boundary types given as a list or tuple in
 RHG_graph

---
 flamingpy/codes/surface_code.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 0750d83..61b9aac 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -167,6 +167,7 @@ def RHG_graph(
     # Dealing with boundaries.
     if isinstance(boundaries, str):
         boundaries = str_to_bound(boundaries)
+    boundaries = np.array(boundaries)
 
     # Locations of all primal vertices.
     max_dict = {"primal": 1, "dual": 0, "periodic": 0}
-- 
2.43.0


From 1d972a57694fcc37f7d40dd506d07f7de7239bfe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 02/42] fix: do not grow union-find clusters that already touch
 the boundary

---
 flamingpy/decoders/unionfind/algos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index 11e568c..ef39dc0 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -125,7 +125,8 @@ def initialize_cluster_trees(stabilizer_graph):
                     ),
                 ),
             )
-        if cluster_root.parity:
+        # A cluster connected to the boundary is already matched to it.
+        if cluster_root.parity and not cluster_root.boundary:
             odd_clusters += [cluster_root]
         cluster_trees += [cluster_root]
 
-- 
2.43.0


From a86607ae76ab7cd4a7ecceab65206ef4950c6d99 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 03/42] fix: recompute the GKP indices from scratch each time
 states are populated

---
 flamingpy/noise/cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 1103b05..42da108 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -307,7 +307,9 @@ class CVLayer:
         """Associate all indices not in self.states with GKP states."""
         used_inds = np.empty(0, dtype=int)
         for psi in self.states:
-            used_inds = np.concatenate([used_inds, self.states[psi]])
+            # GKP indices from an earlier round of sampling are stale.
+            if psi != "GKP":
+                used_inds = np.concatenate([used_inds, self.states[psi]])
         remaining_inds = list(set(range(self._N)) - set(used_inds))
         self.states["GKP"] = np.array(remaining_inds, dtype=int)
 
-- 
2.43.0


From 216457b1ad68b409a16f3e5c21f9524c11bd0704 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 04/42] fix: keep the beamsplitter network supplied to
 CVMacroLayer

---
 flamingpy/noise/cv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 42da108..cb089cf 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -376,8 +376,7 @@ class CVMacroLayer(CVLayer):
         # Instantiate the CVLayer parent class with the right noise model.
         super().__init__(macro_graph, delta=delta, sampling_order="two-step", **kwargs)
         self.reduced_graph = code.graph
-        if bs_network is None:
-            self.bs_network = splitter_symp()
+        self.bs_network = splitter_symp() if bs_network is None else bs_network
 
     def apply_noise(self, rng=default_rng()):
         """Reduce the macronode code lattice to the canonical code lattice.
-- 
2.43.0


From 70b242ae8a414a56a810e0e29d2a040b8aa39702 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 05/42] fix: make two-step homodyne sampling work on a CVLayer

---
 flamingpy/noise/cv.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index cb089cf..7332f51 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -187,6 +187,9 @@ class CVLayer:
         # Determine which means and covs to use for the probability distribution
         if updated_means is None:
             means = self._means_sampler(propagate=propagate, rng=rng)
+            # The covariances in two-step sampling are only for quad at inds.
+            if self._sampling_order == "two-step":
+                means = means[:N][inds] if quad == "q" else means[N:][inds]
         else:
             if quad == "q":
                 means = updated_means[:N][inds]
@@ -295,11 +298,7 @@ class CVLayer:
             N_inds = len(inds)
             covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)
             if self._perfect_inds:
-                inds_to_0 = set(inds).intersection(self._perfect_inds)
-                ind_arr = np.empty(len(inds_to_0), dtype=np.int64)
-                for i, perfect_ind in enumerate(inds_to_0):
-                    ind_arr[i] = (inds == perfect_ind).nonzero()[0][0]
-                covs[ind_arr] = 0
+                covs[np.isin(inds, self._perfect_inds)] = 0
 
         return covs
 
-- 
2.43.0


From 58b33e13299c2f634505a14f639a0c5331b874ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 06/42] fix: generate the adjacency matrix after a qubit has
 been removed

---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index cd9b80e..3f13083 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -168,7 +168,8 @@ class EGraph(nx.Graph):
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-        sorted_nodes = [self.to_points[i] for i in range(self.order())]
+        # The indices need not be contiguous if qubits have been removed.
+        sorted_nodes = [self.to_points[i] for i in sorted(self.to_points)]
         # TODO: Reconsider data type for more intricate weights.
         if sparse:
             adj = nx.to_scipy_sparse_array(self, nodelist=sorted_nodes, dtype=np.int8)
-- 
2.43.0


From 22af3065e8455f829ed53074132d79354af94191 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 07/42] fix: honour the sparse option of adj_generator when a
 matrix is cached

---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 3f13083..f5d53be 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -19,6 +19,7 @@ from typing import Union, Optional
 import warnings
 import networkx as nx
 import numpy as np
+import scipy.sparse as sp
 
 from flamingpy.utils.linalg import are_lc_equivalent
 
@@ -164,7 +165,7 @@ class EGraph(nx.Graph):
         self.index_generator(). This function demands that the indices
         match.
         """
-        if self.adj_mat is not None:
+        if self.adj_mat is not None and sp.issparse(self.adj_mat) == sparse:
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-- 
2.43.0


From ad455cfb8b54e114270b67899b9bcceac3c1d451 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 08/42] fix: index macronized graphs that have qubits outside
 of macronodes

---
 flamingpy/codes/graphs/egraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index f5d53be..8bcf8dc 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -150,6 +150,8 @@ class EGraph(nx.Graph):
             points = []
             for vertex in sorted_macro:
                 points += self.macro_to_micro[vertex]
+            # Qubits that do not belong to any macronode come last.
+            points += sorted(set(self.nodes()).difference(points))
             ind_dict = {points[i]: i for i in range(N)}
         self.to_indices = ind_dict
         self.to_points = {index: point for point, index in ind_dict.items()}
-- 
2.43.0


From b290449d516ef19fb87db8394b8d9edf2317d3f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 09/42] fix: leave the graph unchanged when add_qubit is given
 invalid neighbors

---
 flamingpy/codes/graphs/egraph.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 8bcf8dc..de2d54f 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -270,13 +270,8 @@ class EGraph(nx.Graph):
                 "Cannot add a qubit to macronode because current EGraph is not macronized."
             )
 
-        # Add node
-        self.add_node(qubit)
-
-        # Update dictionaries when adding qubit
-        self._update_attributes_add_qubit(qubit, add_to_macronode)
-
-        # Update neighbors
+        # Identify the neighbors before modifying the graph
+        neighborhood = []
         if neighbors is not None:
             if len(neighbors) != 0:
                 if isinstance(neighbors[0], int):
@@ -291,8 +286,18 @@ class EGraph(nx.Graph):
                         f" {type(neighbors[0])} was given. Type int can only be used when "
                         "macro is False."
                     )
+        for tup, _ in neighborhood:
+            if tup not in self:
+                raise ValueError(f"There is no qubit in position {tup} to connect to.")
 
-                self.add_edges_from(neighborhood)
+        # Add node
+        self.add_node(qubit)
+
+        # Update dictionaries when adding qubit
+        self._update_attributes_add_qubit(qubit, add_to_macronode)
+
+        # Update neighbors
+        self.add_edges_from(neighborhood)
 
         self.adj_mat = None
 
-- 
2.43.0


From 82759e9e8f298ed2eff290f05c7921767c5560d4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 10/42] fix: do not remove nodes from the stabilizer graph
 being drawn

---
 flamingpy/utils/viz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index b685e12..1e88169 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -729,10 +729,13 @@ def draw_dec_graph(graph, label_edges=False, node_labels=None, title=""):
         raise ValueError("The graph must be implemented with the networkx backend.")
 
     # Remove 'low' and 'high' nodes, which are not important for visualization.
+    # This is done on a copy so that the graph can still be used for decoding.
     if graph.__class__.__name__ == "NxStabilizerGraph":
-        graph.graph.remove_nodes_from({"low", "high"})
+        graph = graph.graph.copy()
+        graph.remove_nodes_from({"low", "high"})
+    else:
+        graph = graph.graph
 
-    graph = graph.graph
     layout = nx.circular_layout(graph)
 
     fig, ax = plt.subplots()
-- 
2.43.0


From 79796d9c2c6d74534a86287bad2eb5718a7e160d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 11/42] fix: search single vectors and small null spaces for LC
 equivalence

---
 flamingpy/utils/linalg.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index cf76e24..1ad0130 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -1,5 +1,7 @@
 """Helper functions for linear algebra used for testing LC equivalence."""
 
+import itertools as it
+
 import numpy as np
 
 
@@ -103,8 +105,9 @@ def nullspace_basis(M):
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
 
-     Search through sums of pairs of basis vectors of the nullspace and
-     see if any satisfy the determinant constraints. If no solution is found,
+     Search through the basis vectors of the nullspace and sums of pairs of
+     them (or the entire nullspace if it has dimension at most 4), and see if
+     any satisfy the determinant constraints. If no solution is found,
      output None. If a solution is found, return a vector specifying the local
      Clifford in the form:
 
@@ -125,13 +128,14 @@ def search_nullspace(basis):
     equivalent = False
     # array to store potential solutions
     sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
+    # search through sums of at most max_terms distinct basis vectors
+    max_terms = d if d <= 4 else 2
+    for n_terms in range(1, max_terms + 1):
+        for indices in it.combinations(range(d), n_terms):
             # boolean for checking solution constraints
             sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
+            # potential solution as sum (modulo 2) of basis vectors
+            sol = np.sum(basis[list(indices)], axis=0) % 2
             # store potential solution
             sols.append(sol)
             for k in range(n):
-- 
2.43.0


From df299cdf394c8c8c899be8a4bb7d849775023fac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 12/42] fix: decide LC equivalence of disconnected graphs
 component by component

---
 flamingpy/utils/linalg.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index 1ad0130..823a07e 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -3,6 +3,7 @@
 import itertools as it
 
 import numpy as np
+from scipy.sparse.csgraph import connected_components
 
 
 def reduce_RREform_mod2(M, max_cols=None):
@@ -274,12 +275,28 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
 
     # perform algorithm to search for solution
     #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # local Cliffords preserve the connected components, and the search below
+    # is only exhaustive for connected graphs: solve each component separately
+    n = np.shape(G)[0]
+    n_components, labels_G = connected_components(G, directed=False)
+    _, labels_H = connected_components(H, directed=False)
+    solution_vector = None
+    if np.array_equal(labels_G, labels_H):
+        solution_vector = np.zeros(4 * n, dtype=int)
+        for component in range(n_components):
+            inds = np.nonzero(labels_G == component)[0]
+            sub = np.ix_(inds, inds)
+            # construct system of constraints for the two adjacency matrices
+            system = lc_constraint_system(G[sub], H[sub])
+            # construct nullspace basis of system of constraints
+            nullspace = nullspace_basis(system)
+            # search nullspace for solution vector
+            component_solution = search_nullspace(nullspace)
+            if component_solution is None:
+                solution_vector = None
+                break
+            for k in range(4):
+                solution_vector[inds + k * n] = np.split(component_solution, 4)[k]
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0


From 0e01559893ec208aad908b6db14431fd84a5c937 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 13/42] fix: quote simulation arguments that contain commas in
 the results file

---
 flamingpy/simulations.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index 30852a0..e88ffc8 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -116,6 +116,12 @@ def ec_monte_carlo(
     return errors
 
 
+def _csv_field(value):
+    """Return the text of value, quoted if it would span several columns."""
+    text = str(value)
+    return f'"{text}"' if "," in text else text
+
+
 def run_ec_simulation(
     trials, code, code_args, noise, noise_args, decoder, decoder_args, fname=None
 ):
@@ -171,16 +177,16 @@ def run_ec_simulation(
             # writer = csv.writer(file)
         file.write("%s," % (code.__name__))
         for value in code_args.values():
-            file.write("%s," % (value))
+            file.write("%s," % (_csv_field(value)))
         file.write("%s," % (noise.__name__))
         for value in noise_args.values():
-            file.write("%s," % (value))
+            file.write("%s," % (_csv_field(value)))
         file.write("%s," % (decoder))
         for key, value in decoder_args.items():
             if key == "weight_opts":
                 file.write('"%s",' % (value))
             else:
-                file.write("%s," % (value))
+                file.write("%s," % (_csv_field(value)))
         current_time = datetime.now().time().strftime("%H:%M:%S")
         file.write(
             "%i,%i,%s,%f,%i\n"
-- 
2.43.0


From 1aefc28e26eec7dddb67330b57d9972c1cc16c66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 14/42] fix: use the likeliest of several qubits shared by a
 pair of stabilizers

---
 flamingpy/codes/graphs/stabilizer_graph.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index f1c4761..15c8874 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -73,6 +73,7 @@ class StabilizerGraph(ABC):
         self.add_node("low")
         self.add_node("high")
         self.stabilizers = []
+        self.multiple_vertices = {}
         self.low_bound_points = []
         self.high_bound_points = []
         if code is not None and ec is not None:
@@ -293,9 +294,13 @@ class StabilizerGraph(ABC):
             The updated stabilizer graph.
         """
         for stab1, stab2 in it.combinations(self.stabilizers, 2):
-            common_vertex = set(stab1.coords()) & set(stab2.coords())
-            if common_vertex:
-                self.add_edge(stab1, stab2, common_vertex=common_vertex.pop())
+            common_vertices = set(stab1.coords()) & set(stab2.coords())
+            if common_vertices:
+                self.add_edge(stab1, stab2, common_vertex=min(common_vertices))
+                # Stabilizers on either side of a short periodic direction
+                # share more than one vertex.
+                if len(common_vertices) > 1:
+                    self.multiple_vertices[(stab1, stab2)] = sorted(common_vertices)
         for stab, point in it.product(self.stabilizers, self.bound_points()):
             if point in stab.coords():
                 self.add_edge(stab, point, common_vertex=point)
@@ -320,7 +325,16 @@ class StabilizerGraph(ABC):
 
     def assign_weights(self, code):
         """Assign the weights to the graph based on the weight of the common
-        vertex of each stabilizer pair of the code."""
+        vertex of each stabilizer pair of the code.
+
+        If the stabilizers of a pair share several vertices, the vertex
+        with the smallest weight is chosen for the edge.
+        """
+        nodes = code.graph.nodes
+        for pair, vertices in self.multiple_vertices.items():
+            if all(nodes[vertex].get("weight") is not None for vertex in vertices):
+                best = min(vertices, key=lambda vertex: nodes[vertex]["weight"])
+                self.edge_data(*pair)["common_vertex"] = best
         for edge in self.edges():
             data = self.edge_data(*edge)
             if data["common_vertex"] is not None:
-- 
2.43.0


From af0dc8ce2ce99b9606a742ae556909bfd4051882 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 15/42] fix: accept plain lists of state indices when sampling
 CV noise

---
 flamingpy/noise/cv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 7332f51..5c20caa 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -286,7 +286,8 @@ class CVLayer:
             noise_p = {"p": (delta / 2) ** 0.5, "GKP": (delta / 2) ** 0.5}
             for state, indices in self.states.items():
                 if self._perfect_inds:
-                    indices = np.array(list(set(indices).difference(self._perfect_inds)))
+                    indices = list(set(indices).difference(self._perfect_inds))
+                indices = np.array(indices, dtype=int)
                 if len(indices) > 0:
                     covs[indices] = noise_q[state]
                     covs[indices + self._N] = noise_p[state]
-- 
2.43.0


From 2be6be9820276176e66b798c13ee213d87c9302b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 16/42] fix: return a dense symplectic matrix from SCZ_mat for
 sparse matrices if asked

---
 flamingpy/cv/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index 225545a..5549c86 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -29,8 +29,8 @@ def invert_permutation(p):
 
 
 def issparse(array):
-    """Check if an array is sparse. Backwards-compatible with old SciPy versions."""
-    return isinstance(array, getattr(sp, "sparray", sp.coo_matrix))
+    """Check if an array is sparse (a sparse array or a sparse matrix)."""
+    return sp.issparse(array)
 
 
 def SCZ_mat(adj, sparse=True):
-- 
2.43.0


From 1383fdf7c804ffbf3f4c5dd687218248748e10f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 17/42] fix: let Z_err_cond use one variance for an array of
 outcomes

---
 flamingpy/cv/gkp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 4cac738..7b07750 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -132,8 +132,8 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         else:
             return replace_undefined
     else:
-        # Initiate a list with length same as var
-        error = np.zeros(np.shape(var))
+        # A single variance applies to all the outcomes.
+        var = np.broadcast_arrays(var, val)[0]
 
         def ex(z, n):
             return np.exp(-((z - n * np.sqrt(np.pi)) ** 2) / var)
-- 
2.43.0


From ab4ba1e6be401d4f6d1f8b4af5f95942f21db96e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 18/42] fix: make the bin_location option of Z_err_cond work
 for scalars and partly defined arrays

---
 flamingpy/cv/gkp.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 7b07750..fa5d520 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -129,8 +129,9 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         denominator = np.sum(ex_val(np.arange(-n_max, n_max)))
         if denominator != 0:
             return numerator / denominator
-        else:
-            return replace_undefined
+        if replace_undefined == "bin_location":
+            return np.abs(frac) / np.sqrt(np.pi)
+        return replace_undefined
     else:
         # A single variance applies to all the outcomes.
         var = np.broadcast_arrays(var, val)[0]
@@ -147,10 +148,10 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         # For 0 denominator, populate error according to replace_undefined
         if len(where_0):
             if replace_undefined == "bin_location":
-                zero_dem_result = np.abs(val) / np.sqrt(np.pi)
+                bin_location = np.abs(frac) / np.sqrt(np.pi)
+                error[where_0] = np.broadcast_to(bin_location, np.shape(var))[where_0]
             else:
-                zero_dem_result = replace_undefined
-            error[where_0] = np.full(len(where_0), zero_dem_result)
+                error[where_0] = replace_undefined
         if np.size(var) == 1:
             numerator = np.array([numerator])
             denominator = np.array([denominator])
-- 
2.43.0


From d2190400d9b002955239db235087719649284fdd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 19/42] fix: keep padding micronodes apart from the others for
 every displacement

---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index de2d54f..b448e34 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -90,7 +90,8 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
                 n_new = 4 - macro_size
                 for i in range(n_new):
                     new_node = list(node)
-                    new_node[i] = new_node[i] + 0.05
+                    # Closer to the vertex than the micronodes with an edge.
+                    new_node[i] = new_node[i] + disp / 2
                     new_node_tup = tuple(new_node)
                     macro_graph.add_node(new_node_tup, **can_graph.nodes[node])
                     macro_dict[node].append(new_node_tup)
-- 
2.43.0


From a469324098630bd5b6679daa71fd8a3d9514dcb9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 20/42] fix: round macronode displacements so that they stay
 below one half

---
 flamingpy/codes/graphs/egraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index b448e34..c6933e3 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -59,6 +59,8 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
     """
     if disp >= 0.5 or disp < 0:
         raise ValueError("Please set disp to a positive value strictly less than 0.5.")
+    # Round so finely that the micronodes stay displaced, and on their side.
+    decimals = -int(np.floor(np.log10(min(disp, 0.5 - disp)))) + 2
     macro_graph = nx.Graph(**can_graph.graph)
     # The macronode-to-micronode dictionary
     macro_dict = {}
@@ -68,7 +70,7 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
         distance = np.linalg.norm(direction_vec)
         periodic_flip = -1 if can_graph.edges[edge].get("periodic") else 1
         shortened_vec = periodic_flip * disp * direction_vec / distance
-        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 2)
+        shortened_vec = np.round(shortened_vec, decimals)
         new_point_1 = tuple(old_point_1 + shortened_vec)
         new_point_2 = tuple(old_point_2 - shortened_vec)
         macro_graph.add_node(new_point_1, **can_graph.nodes[edge[0]])
-- 
2.43.0


From 619556645e4f6562a5031118a07a16b945df421b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 21/42] fix: account for edge weights when reducing macronodes

---
 flamingpy/noise/cv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 5c20caa..9e69093 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -587,6 +587,11 @@ class CVMacroLayer(CVLayer):
                 for i in (1, 2, 3, 4)
             ]
         )
+        # The outcomes reach macronode j through CZ gates of the edge weights.
+        for i in (1, 2, 3, 4):
+            if neighbors[i - 1]:
+                micro = self._to_points[self.permuted_inds[j + i - 1]]
+                Z_arr[i] *= macro_graph.edges[micro, neighbors[i - 1]].get("weight", 1)
         # p-homodyne outcome of the star node.
         star_p_val = macro_graph.nodes[vertex]["hom_val_p"]
 
-- 
2.43.0


From e18e8fa59a25d63220709f05241781b9798d90a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 22/42] fix: index a qubit added to a graph whose qubits have
 all been removed

---
 flamingpy/codes/graphs/egraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index c6933e3..33f9d9e 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -318,7 +318,7 @@ class EGraph(nx.Graph):
 
         # Update dictionaries
         if self.to_indices is not None:
-            new_index = max(self.to_points) + 1
+            new_index = max(self.to_points, default=-1) + 1
             self.to_points[new_index] = qubit
             self.to_indices[qubit] = new_index
 
-- 
2.43.0


From 9c829b4851184564087533263f4ee5c6f8cfe6a7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 23/42] fix: quote simulation arguments that contain quotes or
 line breaks

---
 flamingpy/simulations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index e88ffc8..af2593d 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -119,7 +119,9 @@ def ec_monte_carlo(
 def _csv_field(value):
     """Return the text of value, quoted if it would span several columns."""
     text = str(value)
-    return f'"{text}"' if "," in text else text
+    if any(char in text for char in ',"\r\n'):
+        return '"' + text.replace('"', '""') + '"'
+    return text
 
 
 def run_ec_simulation(
-- 
2.43.0


From 423dd5bf252f1f0b10b146ae85929e87e7dc6c30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 24/42] fix: node information of None, and indices generated on
 demand, in plotly graphs

---
 flamingpy/utils/viz.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 1e88169..2c2cbb0 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -610,10 +610,13 @@ def _get_node_info(egraph, node, information="coordinates"):
                 ``information``,
             - if ``information`` is None, return None (nothing will be displayed).
             - if ``information`` contains ``"index"``, include the index from
-                ``egraph.to_indices[node]``.
+                ``egraph.index_generator()``.
             - if ``information`` is "all" it will display the coordinates, index and all the
                 information avaible in the node.
     """
+    if information is None:
+        return None
+
     # information dictionary
     info_dict = egraph.nodes[node].copy()
 
@@ -625,13 +628,11 @@ def _get_node_info(egraph, node, information="coordinates"):
 
     # add index if desired
     if "index" in information:
-        info_dict["index"] = egraph.to_indices[node]
+        info_dict["index"] = egraph.index_generator()[node]
 
     # returning relevant information
     if information == "coordinates":
         return str(node)
-    if information is None:
-        return None
     if isinstance(information, str):
         node_property = info_dict.get(information)
         return f"{information}: {node_property}"
-- 
2.43.0


From 2125e40d975d76a56b379ac3a83923deeee09fcd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 25/42] fix: matplotlib colours in plotly graphs

---
 flamingpy/utils/viz.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 2c2cbb0..fb91ecc 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -412,7 +412,9 @@ def draw_EGraph_plotly(
     nodes = np.array(egraph.nodes)
     x_nodes, y_nodes, z_nodes = nodes[:, 0], nodes[:, 1], nodes[:, 2]
 
-    nodeColors = [_get_node_color(egraph, node, color_nodes) for node in egraph.nodes]
+    nodeColors = [
+        _plotly_color(_get_node_color(egraph, node, color_nodes)) for node in egraph.nodes
+    ]
     nodeInfo = [_get_node_info(egraph, node, information=label) for node in egraph.nodes]
 
     fig.add_traces(
@@ -443,7 +445,9 @@ def draw_EGraph_plotly(
         y_edges.extend([y0, y1, None])
         z_edges.extend([z0, z1, None])
 
-    edgeColors = [_get_edge_color(egraph, edge, color_edges) for edge in egraph.edges]
+    edgeColors = [
+        _plotly_color(_get_edge_color(egraph, edge, color_edges)) for edge in egraph.edges
+    ]
 
     fig.add_traces(
         go.Scatter3d(
@@ -461,6 +465,11 @@ def draw_EGraph_plotly(
     return fig
 
 
+def _plotly_color(color):
+    """Convert a matplotlib color, such as ``"b"``, to one plotly understands."""
+    return mpl.colors.to_hex(color) if mpl.colors.is_color_like(color) else color
+
+
 def _plot_EGraph_edges(ax, egraph, color_edges):
     """Draw the edges of the graph state represented by the EGraph.
 
-- 
2.43.0


From 9cc64d34c7e8e59ad6b141f0a4dd60609e8ed983 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 26/42] fix: draw node labels without a title when some values
 are missing

---
 flamingpy/utils/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index fb91ecc..d0ce013 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -560,7 +560,7 @@ def _plot_EGraph_nodes(ax, egraph, color_nodes, label, name, legend):
 
     if label and n_uncomputed > 0:
         message = "{} at {} node(s) have not yet been computed."
-        print(message.format(name.lower(), n_uncomputed))
+        print(message.format((name or label).lower(), n_uncomputed))
 
     # Plotting nodes legend
     if isinstance(color_nodes, tuple) and legend:
-- 
2.43.0


From a1cc8dd9f0b0719f87258f822a4e099a42102747 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 27/42] fix: do not truncate quadratures in SCZ_apply for
 integer arrays

---
 flamingpy/cv/ops.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index 5549c86..09020fb 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -85,9 +85,7 @@ def SCZ_apply(adj, quads, one_shot=True):
         else:
             old_qs = quads[:N]
             old_ps = quads[N:]
-            new_quads = np.empty(2 * N, quads.dtype)
-            new_quads[:N] = old_qs
-            new_quads[N:] = adj.dot(old_qs) + old_ps
+            new_quads = np.concatenate((old_qs, adj.dot(old_qs) + old_ps))
     if len(quads.shape) == 2:
         if one_shot:
             SCZ = SCZ_mat(adj)
-- 
2.43.0


From 848d3876584d5a24841d6f47b2ecf6c477b58cf3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 28/42] fix: a title given as text is drawn whatever the labels
 are

---
 flamingpy/utils/viz.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index d0ce013..a908bf9 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -245,16 +245,17 @@ def _get_title(title=None, label="index"):
     if not title:
         return None
 
-    # Unpack list or tuple...
+    # Return title directly...
+    if isinstance(title, str):
+        return title
+
+    # ... or unpack list or tuple...
     if isinstance(label, (tuple, list)):
         if len(label) > 1:
             return ", ".join(label)
         # or convert to a single string
         label = label[0]
 
-    # Return title directly...
-    if isinstance(title, str):
-        return title
     # ... or base it on label value
     if isinstance(label, str):
         if isinstance(title, bool):
-- 
2.43.0


From 6734cff2f8627de7e5b6cf0501d4df053497829b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 29/42] fix: plotly draws the edges of a graph in the requested
 colours

---
 flamingpy/utils/viz.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index a908bf9..6af755d 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -456,9 +456,8 @@ def draw_EGraph_plotly(
             x=x_edges,
             y=y_edges,
             z=z_edges,
-            line=dict(color="black", width=1),
+            line=dict(color=np.repeat(edgeColors, 3).tolist(), width=1),
             mode="lines",
-            marker=dict(color=edgeColors),
             hoverinfo="none",
         )
     )
-- 
2.43.0


From 47d0b81fd19a671f26839fd516b62a70e4fc6547 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 30/42] fix: draw syndromes and recoveries on the axes the
 graph is drawn on

---
 flamingpy/utils/viz.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 6af755d..63c88e2 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -891,14 +891,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
         fig = plt.figure()
         ax = fig.add_subplot(projection="3d")
         plt.xticks(range(0, 2 * shape[0] - 1))
-        plt.yticks(range(0, 2 * shape[1] - 1))
-        ax.set_zticks(range(0, 2 * shape[2] - 1))
+        plt.yticks(range(0, 2 * shape[2] - 1))
+        ax.set_zticks(range(0, 2 * shape[1] - 1))
         ax.set_xlabel("x", labelpad=20)
         ax.set_ylabel("z", labelpad=20)
         ax.set_zlabel("y", labelpad=20)
         leg = None
     # Illustrate stabilizers with voxels colored green for even
-    # parity and red for odd pariy.
+    # parity and red for odd pariy. As in draw_EGraph, y and z are
+    # swapped so that z goes into the page.
     positions, colors, sizes = [], [], []
     for cube in cubes:
         # Obtain smallest, largest, and middle coordinates for each
@@ -915,15 +916,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
 
         # gap defines the distance between adjacent cubes
         gap = 0.15
-        min_arr = np.array([xmin, ymin, zmin])
-        max_arr = np.array([xmax, ymax, zmax])
+        min_arr = np.array([xmin, zmin, ymin])
+        max_arr = np.array([xmax, zmax, ymax])
         positions.append(min_arr + gap)
         sizes.append(np.abs(max_arr - min_arr) - 2 * gap)
         colors.append(color)
 
         if drawing_opts["label_stabilizers"] and index_dict:
             if cube in index_dict:
-                ax.text(xmid, ymid, zmid, index_dict[cube])
+                ax.text(xmid, zmid, ymid, index_dict[cube])
 
     # draw cubes
     pc = _plot_cubes_at(positions, colors=colors, sizes=sizes)
@@ -932,14 +933,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
     # setting plot limits to give some room to the boxes
     ymin = 0 if ec == "primal" else -2
     ax.set_xlim(0, 2 * shape[0])
-    ax.set_ylim(ymin, 2 * shape[1])
-    ax.set_zlim(0, 2 * shape[2])
+    ax.set_ylim(0, 2 * shape[2])
+    ax.set_zlim(ymin, 2 * shape[1])
 
     if drawing_opts["label_boundary"] and index_dict:
         bound_points = getattr(code, ec + "_bound_points")
         for point in bound_points:
-            ax.scatter(*point, s=5, c="k")
-            ax.text(*point, index_dict[point])
+            x, z, y = point
+            ax.scatter(x, y, z, s=5, c="k")
+            ax.text(x, y, z, index_dict[point])
 
     # Define a legend for red/green cubes.
     legend_elements = [
@@ -1016,7 +1018,8 @@ def add_recovery_drawing(ax, **kwargs):
     recovery_set = kwargs.get("recovery_set")
     if recovery_set:
         for point in recovery_set:
-            ax.plot(*point, "o", c="k", markersize=6)
+            x, z, y = point
+            ax.plot(x, y, z, "o", c="k", markersize=6)
     matching = kwargs.get("matching")
     G_match = kwargs.get("matching_graph")
     if matching:
@@ -1027,9 +1030,9 @@ def add_recovery_drawing(ax, **kwargs):
                 path = G_match.edge_path(pair)
                 for node in path:
                     if isinstance(node, Stabilizer):
-                        x, y, z = node.midpoint()
+                        x, z, y = node.midpoint()
                     else:
-                        x, y, z = node
+                        x, z, y = node
                         plt.plot(x, y, z, marker="2", markersize=15, c="k")
                     xlist += [x]
                     ylist += [y]
-- 
2.43.0


From 75bf76171136a572ddc9aab28f2e65d3dc9ad0db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:09 +0000
Subject: [PATCH 31/42] fix: Union-Find exceeded the recursion limit when
 trimming long branches

Erasing a straight line of qubits of a lattice with more than about a
thousand layers made uf_decoder raise a RecursionError.
---
 flamingpy/decoders/unionfind/algos.py | 37 +++++++++++++++------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index ef39dc0..0a72fe2 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -269,23 +269,26 @@ def trim_forest(spanning_forest, leaf, parity_dict, recovery):
     Returns:
         NoneType
     """
-    edges = list(spanning_forest.out_edges(leaf))
-    if edges:
-        edge = edges[0]
-    else:
-        return
-    edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
-    spanning_forest.remove_edge(edge[0], edge[1])
-    if edge[0] == leaf:
-        new_leaf = edge[1]
-    else:
-        new_leaf = edge[0]
-    if parity_dict[leaf] == 1:
-        recovery.add(edge_qubit_index)
-        parity_dict[leaf] = 0
-        parity_dict[new_leaf] ^= 1
-    if spanning_forest.degree(new_leaf) == 1:
-        trim_forest(spanning_forest, new_leaf, parity_dict, recovery)
+    # A loop and not a recursion, as the branches of large forests are long.
+    while True:
+        edges = list(spanning_forest.out_edges(leaf))
+        if edges:
+            edge = edges[0]
+        else:
+            return
+        edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
+        spanning_forest.remove_edge(edge[0], edge[1])
+        if edge[0] == leaf:
+            new_leaf = edge[1]
+        else:
+            new_leaf = edge[0]
+        if parity_dict[leaf] == 1:
+            recovery.add(edge_qubit_index)
+            parity_dict[leaf] = 0
+            parity_dict[new_leaf] ^= 1
+        if spanning_forest.degree(new_leaf) != 1:
+            return
+        leaf = new_leaf
 
 
 def peeling(spanning_forest, parity_dict):
-- 
2.43.0


From 339d0d9ecead126b0169367762199b7c36184aaf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 32/42] fix: quote weight options that contain quotes in the
 results file

---
 flamingpy/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index af2593d..3487eea 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -186,7 +186,7 @@ def run_ec_simulation(
         file.write("%s," % (decoder))
         for key, value in decoder_args.items():
             if key == "weight_opts":
-                file.write('"%s",' % (value))
+                file.write('"%s",' % (str(value).replace('"', '""')))
             else:
                 file.write("%s," % (_csv_field(value)))
         current_time = datetime.now().time().strftime("%H:%M:%S")
-- 
2.43.0


From bac13c0a51c37ae48c3c267654deb2045e204081 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:24 +0000
Subject: [PATCH 33/42] fix: keep double precision in the Lemon matching

The extension narrowed the weights to 32-bit floats, so that matchings
of weights beyond 2^24 or so (or close to each other) were not minimal.
---
 flamingpy/cpp/lemonpy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flamingpy/cpp/lemonpy.cpp b/flamingpy/cpp/lemonpy.cpp
index 0af41eb..ac85c43 100644
--- a/flamingpy/cpp/lemonpy.cpp
+++ b/flamingpy/cpp/lemonpy.cpp
@@ -7,10 +7,10 @@
 #include <vector>
 
 typedef lemon::ListGraph Graph;
-typedef Graph::EdgeMap<float> Weights;
+typedef Graph::EdgeMap<double> Weights;
 typedef lemon::MaxWeightedPerfectMatching<Graph,Weights> MWPM;
 
-std::vector<int> mwpm(const std::vector<float> & adjacency, int num_nodes)
+std::vector<int> mwpm(const std::vector<double> & adjacency, int num_nodes)
 {
   Graph g;
   Weights w(g);
@@ -47,17 +47,17 @@ std::vector<int> mwpm(const std::vector<float> & adjacency, int num_nodes)
 namespace py = pybind11;
 
 // wrap C++ function with NumPy array IO
-py::array py_mwpm(py::array_t<float, py::array::c_style | py::array::forcecast> array)
+py::array py_mwpm(py::array_t<double, py::array::c_style | py::array::forcecast> array)
 {
   // check input dimensions
   if ( array.ndim()     != 2 )
     throw std::runtime_error("Input should be 2-D NumPy array");
 
   // allocate std::vector (to pass to the C++ function)
-  std::vector<float> pos(array.size());
+  std::vector<double> pos(array.size());
 
   // copy py::array -> std::vector
-  std::memcpy(pos.data(),array.data(),array.size()*sizeof(float));
+  std::memcpy(pos.data(),array.data(),array.size()*sizeof(double));
 
   // call pure C++ function
   std::vector<int> result = mwpm(pos, array.shape()[0]);
-- 
2.43.0


From ef60507e4828550489ea38d1f26eb57a0bd8797e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 34/42] fix: draw edges without an entry in the color
 dictionary grey

Their color was None, on which plotly raised and for which matplotlib
picked the next color of its cycle.
---
 flamingpy/utils/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 63c88e2..cc7b6df 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -690,7 +690,7 @@ def _get_edge_color(egraph, edge, color_edges):
                 "dictionary values to valid matplotlib color strings."
             )
         edge_property = egraph.edges[edge].get(edge_attribute)
-        color = color_dict.get(edge_property)
+        color = color_dict.get(edge_property, "grey")
     elif color_edges == True:
         color = egraph.edges[edge].get("color") or "grey"
     else:
-- 
2.43.0


From 6dfbf710dd085be77b7caeba0fa2ab99b5bcae16 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:29 +0000
Subject: [PATCH 35/42] fix: leave the dictionary of states given to a noise
 layer alone

The layer added its own samples to it, so that a second layer made with
the same dictionary took them for supplied states, or was refused.
---
 flamingpy/noise/cv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 9e69093..259f603 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -92,7 +92,8 @@ class CVLayer:
         # Set some noise model parameters.
         self.delta = delta
         self.p_swap = kwargs.get("p_swap")
-        self.states = supplied_states or {"p": np.empty(0, dtype=int)}
+        # A copy, as the states change in every trial.
+        self.states = dict(supplied_states or {"p": np.empty(0, dtype=int)})
         self._sampling_order = kwargs.get("sampling_order") or "initial"
         self._translator = kwargs.get("translator") or GKP_binner
 
-- 
2.43.0


From 6b7bdeb1ef4b295d79b8d8966e7b8d49e07b9710 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:27 +0000
Subject: [PATCH 36/42] fix: give every EGraph its own macronode dictionary

Graphs made from a macronode graph shared its dictionary, so that editing
one of them removed or added micronodes in the others.
---
 flamingpy/codes/graphs/egraph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 33f9d9e..8f2e3b6 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -129,7 +129,12 @@ class EGraph(nx.Graph):
         self._macronodes = macronodes
         self.macro_to_micro = None
         if macronodes:
-            self.macro_to_micro = self.graph.get("macro_dict")
+            macro_dict = self.graph.get("macro_dict")
+            if macro_dict is not None:
+                # A copy, as the graph this one was made from may be edited as well.
+                macro_dict = {vertex: list(micro) for vertex, micro in macro_dict.items()}
+                self.graph["macro_dict"] = macro_dict
+            self.macro_to_micro = macro_dict
         self.to_indices = None
         self.to_points = None
         self.adj_mat = None
-- 
2.43.0


From d272a2ee462021bb56fd0f28396d097d5509b420 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:41 +0000
Subject: [PATCH 37/42] fix: draw codes whose polarity is a callable without a
 name

---
 flamingpy/codes/surface_code.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 61b9aac..61c2c21 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -533,9 +533,9 @@ class SurfaceCode:
         dual nodes; blue for weight +1 edges, red for weight -1 edges.
         """
         edge_colors = "grey"
-        if self.polarity is not None:
-            if self.polarity.__name__ == "alternating_polarity":
-                edge_colors = ("weight", {1: "b", -1: "r"})
+        # Not every callable has a name (functools.partial objects do not).
+        if getattr(self.polarity, "__name__", None) == "alternating_polarity":
+            edge_colors = ("weight", {1: "b", -1: "r"})
         default_opts = {
             "color_nodes": ("type", {"primal": "black", "dual": "grey"}),
             "color_edges": edge_colors,
-- 
2.43.0


From 904ff496c5bf2af9bc5c53f9eda7ffdeeabddd6d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:43 +0000
Subject: [PATCH 38/42] fix: keep stabilizers and boundary points when
 converting a stabilizer graph to networkx

---
 flamingpy/codes/graphs/stabilizer_graph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index 15c8874..ac5273e 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -351,6 +351,12 @@ class StabilizerGraph(ABC):
         if isinstance(self, NxStabilizerGraph):
             return self
         nx_graph = NxStabilizerGraph()
+        for node in self.nodes():
+            nx_graph.add_node(node)
+        nx_graph.stabilizers = list(self.stabilizers)
+        nx_graph.low_bound_points = list(self.low_bound_points)
+        nx_graph.high_bound_points = list(self.high_bound_points)
+        nx_graph.multiple_vertices = dict(self.multiple_vertices)
         for edge in self.edges():
             nx_graph.add_edge(*edge, self.edge_data(*edge)["common_vertex"])
             if "weight" in self.edge_data(*edge):
-- 
2.43.0


From f51664ce25bbcf8e0e2075a9aee06e647227e83a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:58 +0000
Subject: [PATCH 39/42] fix: keep the virtual points when converting a matching
 graph to networkx

---
 flamingpy/decoders/mwpm/matching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index 15f6065..1eb5664 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -224,6 +224,7 @@ class LemonMatchingGraph(NxMatchingGraph):
         """
         nx = NxMatchingGraph(self.ec)
         nx.graph = self.graph
+        nx.virtual_points = self.virtual_points
         return nx
 
 
@@ -301,4 +302,5 @@ class RxMatchingGraph(MatchingGraph):
         for idx0, idx1 in iter(self.graph.edge_list()):
             edge = (self.graph.nodes()[idx0], self.graph.nodes()[idx1])
             nx_graph.add_edge(edge, self.edge_weight(edge), self.edge_path(edge))
+        nx_graph.virtual_points = list(self.virtual_points)
         return nx_graph
-- 
2.43.0


From 7a4b6855f085e11be0d7565cda94451036e45747 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:51 +0000
Subject: [PATCH 40/42] fix: ring_graph keeps the vertices of very large rings
 apart

---
 flamingpy/utils/graph_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flamingpy/utils/graph_states.py b/flamingpy/utils/graph_states.py
index 16a69c6..4dc94f5 100644
--- a/flamingpy/utils/graph_states.py
+++ b/flamingpy/utils/graph_states.py
@@ -78,13 +78,15 @@ def ring_graph(n):
     if n == 1:
         ring_graph_state.add_node((0, 0, 0))
     else:
+        # Round so finely that neighbouring nodes stay apart.
+        digits = max(5, len(str(n)))
         x, y = np.cos(0), np.sin(0)
         for i in range(1, n + 1):
             degs = 2 * np.pi * i / (n)
             x_next, y_next = np.cos(degs), np.sin(degs)
             edge = [
-                (float(round(x, 5)), float(round(y, 5)), 0),
-                (float(round(x_next, 5)), float(round(y_next, 5)), 0),
+                (float(round(x, digits)), float(round(y, digits)), 0),
+                (float(round(x_next, digits)), float(round(y_next, digits)), 0),
             ]
             ring_graph_state.add_edge(*edge)
             x, y = x_next, y_next
-- 
2.43.0


From 5e05d0b7d4c97151a49e208d341beb7e7ee3a50f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:34 +0000
Subject: [PATCH 41/42] fix: curves have a tick at every multiple of the bin
 width

---
 flamingpy/utils/viz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index cc7b6df..7d45db2 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -66,7 +66,7 @@ def plot_integer_part(xs, ns, alpha, show=True):
     ax = plt.gca()
 
     xmin, xmax = alpha * (xs[0] // alpha), alpha * (xs[-1] // alpha) + alpha
-    newxticks = np.linspace(xmin, xmax, int((xmax - xmin) // alpha) + 1)
+    newxticks = np.linspace(xmin, xmax, int(round((xmax - xmin) / alpha)) + 1)
     ax.xaxis.set_major_formatter(PiFormatter())
 
     plt.plot(xs, ns, ".")
@@ -88,7 +88,7 @@ def plot_fractional_part(xs, fs, alpha, show=True):
     ax = plt.gca()
 
     xmin, xmax = alpha * (xs[0] // alpha), alpha * (xs[-1] // alpha) + alpha
-    newxticks = np.linspace(xmin, xmax, int((xmax - xmin) // alpha) + 1)
+    newxticks = np.linspace(xmin, xmax, int(round((xmax - xmin) / alpha)) + 1)
     newyticks = np.linspace(-alpha / 2, alpha / 2, num=7)
     ax.xaxis.set_major_formatter(PiFormatter())
     ax.yaxis.set_major_formatter(PiFormatter())
@@ -113,7 +113,7 @@ def plot_GKP_bins(outcomes, bit_values, alpha, show=True):
     ax = plt.gca()
 
     xmin, xmax = alpha * (outcomes[0] // alpha), alpha * (outcomes[-1] // alpha) + alpha
-    newxticks = np.linspace(xmin, xmax, int((xmax - xmin) // alpha) + 1)
+    newxticks = np.linspace(xmin, xmax, int(round((xmax - xmin) / alpha)) + 1)
     ax.xaxis.set_major_formatter(PiFormatter())
 
     plt.plot(outcomes, bit_values, ".")
@@ -145,7 +145,7 @@ def plot_Z_err_cond(hom_val, error, alpha, use_hom_val, show=True):
 
     print(xmin, xmax, min(val), max(val))
 
-    newxticks = np.linspace(xmin, xmax, int((xmax - xmin) // alpha) + 1)
+    newxticks = np.linspace(xmin, xmax, int(round((xmax - xmin) / alpha)) + 1)
     ax.xaxis.set_major_formatter(PiFormatter())
 
     plt.plot(val, error, ".")
-- 
2.43.0


From 25371a1b0a12b4697d7b956c852a3cfbb17a3238 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:46 +0000
Subject: [PATCH 42/42] fix: mark the boundary points of a recovery on the axes
 it is drawn on

---
 flamingpy/utils/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 7d45db2..a9fe215 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -1033,7 +1033,7 @@ def add_recovery_drawing(ax, **kwargs):
                         x, z, y = node.midpoint()
                     else:
                         x, z, y = node
-                        plt.plot(x, y, z, marker="2", markersize=15, c="k")
+                        ax.plot(x, y, z, marker="2", markersize=15, c="k")
                     xlist += [x]
                     ylist += [y]
                     zlist += [z]
-- 
2.43.0

