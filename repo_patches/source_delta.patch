From 0e2a5097c1417a596d825c488aa4a3d8be10d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 01/12] fix: generate_random_planar_graph honours seed=0

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e2098f7..397a427 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -187,7 +187,7 @@ def generate_random_planar_graph(n, seed=None):
         Returns None if a planar graph with n nodes cannot be generated
         within a reasonable number of attempts.
     """
-    if seed:
+    if seed is not None:
         random.seed(seed)
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
-- 
2.43.0


From f55ffba176c6576f60fee90f1c3675f103fd6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 02/12] fix: generate_random_planar_graph accepts n=1

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 397a427..dece222 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -192,7 +192,7 @@ def generate_random_planar_graph(n, seed=None):
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
     for _ in range(max_attempts):
-        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))
+        G = nx.gnm_random_graph(n, random.randint(n - 1, max(n - 1, 2 * n - 3)))
 
         # Generate a random graph
         if nx.check_planarity(G)[0] and nx.is_connected(G):
-- 
2.43.0


From 1fd937646e2a96dc1edf7240a33bef44fec9df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 03/12] fix: random_FF_state(pure=True, returnH=True) returns
 the generator of the returned state

---
 src/ff/ff_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index cbdaf5f..17ef2c8 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -472,7 +472,9 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
 
     if pure:
         # For pure states, apply Haar random unitary to vacuum state
-        W_op = random_FF_rotation(n_sites, seed=seed)
+        # (keep the generator, so that a returned H_op is the one behind psi)
+        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+        W_op = expm(-1j * H_op)
         zero_state = np.zeros((2**n_sites, 1), dtype=complex)
         zero_state[0, 0] = 1  # Set the first element to 1 (ground state)
         psi = W_op @ zero_state
@@ -481,8 +483,6 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
         assert np.allclose(1, np.linalg.norm(psi))
 
         if returnH:
-            # Get the generator that produced this unitary
-            H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
             return psi, H_op
         else:
             return psi
-- 
2.43.0


From 95c40f531a012a96a38db1bbb899294b851287b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 04/12] fix: compute_cov_matrix infers an integer number of
 sites

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 17ef2c8..32f1da2 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -810,7 +810,7 @@ def compute_cov_matrix(rho, n_sites=None, alphas=None):
     """
     if n_sites is None:
         N = rho.shape[0]
-        n_sites = np.round(np.log2(N))
+        n_sites = int(np.round(np.log2(N)))
 
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
-- 
2.43.0


From 662319edacc23a914a3c16ce9eb211a9a2bd2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 05/12] fix: eigm_sp_can returns canonical form when there are
 zero modes

---
 src/ff/ff_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 32f1da2..29b17aa 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1244,7 +1244,8 @@ def eigm_sp_can(G):
     iG = -G.imag
 
     # from scipy.linalg
-    [L, O] = schur(iG)
+    # zero modes go last: their 1x1 Schur blocks would misalign the 2x2 blocks
+    [L, O, _] = schur(iG, sort=lambda x, y=0.0: abs(x + 1j * y) > 1e-10)
 
     # we will sort the states according to eigenvalues of A
 
-- 
2.43.0


From ef3ea28e0540c61049219050a3f7bd8f7be3a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 06/12] fix: pfaffian ordering does not depend on node labels
 or insertion order

---
 src/ff/ff_graph_theory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index dece222..c8a21c4 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -277,6 +277,7 @@ def dual_graph_H(G, F, T):
 
     # go through edges missing from tree
     for e in edges_not_in_t:
+        e = tuple(sorted(e))  # same form as in face_edges
         u = None
         v = None
 
@@ -546,8 +547,12 @@ def pfo_algorithm(graph, verbose=False):
         verbose: Print debug information and plots (optional)
 
     Returns:
-        NumPy array representing the pfaffian ordering matrix
+        NumPy array representing the pfaffian ordering matrix, with rows and
+        columns in the order of graph.nodes (as in nx.adjacency_matrix)
     """
+    # vertices index the rows of the matrix below, whatever their labels are
+    graph = nx.convert_node_labels_to_integers(graph)
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From 5a0e01c48d994bd7252263fe941f50996844d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 07/12] fix: perfect matchings of disconnected planar graphs

---
 src/ff/ff_graph_theory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index c8a21c4..715b53c 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -488,6 +488,13 @@ def count_perfect_matchings_planar(graph):
         return 0
         # Trivial case, no non-zero matchings
 
+    # the pfo is found for one connected component at a time
+    components = [graph.subgraph(c) for c in nx.connected_components(graph)]
+    if any(len(c) % 2 != 0 for c in components):
+        return 0
+    if len(components) > 1:
+        return np.prod([count_perfect_matchings_planar(c) for c in components])
+
     A = nx.adjacency_matrix(graph).toarray()
 
     # run the pfo algorithm
-- 
2.43.0


From b06accdb3fcc854e63fbafc46b230fee2261d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 08/12] fix: weighted perfect matchings of non-planar graphs

---
 src/ff/ff_graph_theory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 715b53c..cc4d9dc 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -16,6 +16,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 
 import itertools
 import itertools as it
+import math
 import random
 
 import matplotlib.pyplot as plt
@@ -468,7 +469,12 @@ def count_perfect_matchings(graph):
     if nx.is_planar(graph):
         return count_perfect_matchings_planar(graph)
     else:
-        return len(find_perfect_matchings_brute(graph))
+        # weighted as in the planar case: a matching counts as the product of
+        # its edge weights (1 for an edge without weight)
+        return sum(
+            math.prod(graph[u][v].get("weight", 1) for u, v in matching)
+            for matching in find_perfect_matchings_brute(graph)
+        )
 
 
 def count_perfect_matchings_planar(graph):
-- 
2.43.0


From 9f974571b401d6e4aabeeb730b59af63d5849975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 09/12] fix: build_unitary_path handles unitaries with
 eigenvalue -1

---
 src/ff/ff_random_states.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index 45b6d04..f03f4f7 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -17,7 +17,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 """
 
 import numpy as np
-from scipy.linalg import expm, logm
+from scipy.linalg import expm, schur
 from scipy.stats import unitary_group
 
 from .ff_lib import (
@@ -727,8 +727,10 @@ def build_unitary_path(w, v):
 
     assert np.allclose(U @ U.conj().T, np.eye(n)), "U is not unitary"
 
-    # Compute the Hermitian matrix of U
-    H = 1j * logm(U)
+    # Compute the Hermitian matrix H = i log(U). U is normal, so its Schur form
+    # is diagonal; unlike logm this is also accurate for eigenvalues at -1.
+    T, Q = schur(U, output="complex")
+    H = Q @ np.diag(-np.angle(np.diag(T))) @ Q.conj().T
 
     assert np.allclose(
         H - H.conj().T, 0
-- 
2.43.0


From 89bd635bd89abbc4a6fdf8ed81415ceb7efa6ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 10/12] fix: SRE of nearly maximally mixed states is not read
 as a wavefunction

---
 src/ff/ff_distance_measures.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index 7ec7d3e..f2a06b6 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -220,7 +220,9 @@ def SRE(rho, a=2):
         return 0.0
 
     # Compute Rényi entropy of the distribution and subtract log(d)
-    return renyi_entropy(xi, a) - np.log(d)
+    # xi is a pdf by construction; casting it again would misread a nearly
+    # deterministic distribution as a wavefunction
+    return _renyi_entropy_of_pdf(xi, a) - np.log(d)
 
 
 def renyi_entropy(p, a):
@@ -298,6 +300,11 @@ def renyi_entropy(p, a):
     # Ensure p is a valid probability distribution
     p = cast_to_pdf(p)
 
+    return _renyi_entropy_of_pdf(p, a)
+
+
+def _renyi_entropy_of_pdf(p, a):
+    """Rényi entropy of an array that is known to be a probability distribution."""
     if a == 1:
         # Special case: Shannon entropy (α → 1 limit)
         return entropy(p)
-- 
2.43.0


From 75f1415c741e3eb926e2b9ebb2c48185347b2f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 11/12] fix: printing keeps a user-set numpy formatter

---
 src/ff/ff_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 65801dc..f70e8d5 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -37,8 +37,8 @@ def _print(obj, k=9):
     Returns:
         None
     """
-    # get current precision
-    p = np.get_printoptions()["precision"]
+    # get current print options
+    opts = np.get_printoptions()
 
     try:
         val = np.array(obj)
@@ -59,8 +59,8 @@ def _print(obj, k=9):
         print(obj)
 
     finally:
-        # reset precision
-        np.set_printoptions(precision=p)
+        # reset all print options: set_printoptions drops formatters it is not given
+        np.set_printoptions(**opts)
 
 
 def clean(obj, threshold=1e-6):
-- 
2.43.0


From a16b489287ff3686024cf2a79d2ba54c10d88870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 12/12] fix: plot_planar_embedding reads the orientation in the
 order of the graph's nodes

---
 src/ff/ff_graph_theory.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index cc4d9dc..9061905 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -207,7 +207,8 @@ def plot_planar_embedding(G, pfo=None, title=None):
 
     Args:
         G: The original NetworkX graph
-        pfo: Pfaffian ordering matrix (optional)
+        pfo: Pfaffian ordering matrix, with rows and columns in the order of
+            G.nodes (optional)
         title: Title for the plot (optional)
     """
     pos = nx.planar_layout(G)  # Use planar layout for better visualization
@@ -218,12 +219,13 @@ def plot_planar_embedding(G, pfo=None, title=None):
 
     if pfo is not None:
         plt.title("Planar Embedding with Oriented Faces")
-        # Highlight the edges according to orientation in pfo
+        # Highlight the edges according to orientation in pfo, whose rows and
+        # columns are in the order of G.nodes
+        index = {node: i for i, node in enumerate(G.nodes())}
         for u, v in G.edges():
-            L = min(u, v)
-            R = max(u, v)
+            L, R = sorted((u, v), key=index.get)
 
-            if pfo[L, R] < 0:
+            if pfo[index[L], index[R]] < 0:
                 nx.draw_networkx_edges(
                     nx.DiGraph(G),
                     pos,
@@ -232,7 +234,7 @@ def plot_planar_embedding(G, pfo=None, title=None):
                     arrows=True,
                     width=2,
                 )
-            elif pfo[L, R] > 0:
+            elif pfo[index[L], index[R]] > 0:
                 nx.draw_networkx_edges(
                     nx.DiGraph(G),
                     pos,
-- 
2.43.0

