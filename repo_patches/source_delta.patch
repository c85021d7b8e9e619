From 52d2244911cd7fca74319c4ee44f958653603218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 01/43] fix: yield label arrays for a single region in
 generate_initial_sol

With n_regions == 1 a dict was yielded (making every AZP fit with one region
crash) without checking that the graph is connected.
---
 region/util.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/region/util.py b/region/util.py
index ff3721c..927d58b 100755
--- a/region/util.py
+++ b/region/util.py
@@ -611,9 +611,6 @@ def generate_initial_sol(adj, n_regions):
             "less than or equal to the number of areas "
             "({}).".format(n_regions, n_areas)
         )
-    if n_regions == 1:
-        yield {area: 0 for area in range(n_areas)}
-        return
 
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
-- 
2.43.0


From 048a54c83c4bd88d731750b3c9826829cb106954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 02/43] fix: keep graph attributes in the order of the graph's
 nodes

The adjacency matrix of a networkx graph has its rows in graph.nodes() order,
while the attributes were sorted by node, so areas got other areas'
attributes whenever the nodes were not inserted in sorted order.
---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 927d58b..4d1e7f7 100755
--- a/region/util.py
+++ b/region/util.py
@@ -245,7 +245,7 @@ def array_from_graph(graph, attr):
     True
     """
     dct = dict_from_graph_attr(graph, attr)
-    return array_from_dict_values(dct)
+    return array_from_dict_values(dct, sorted_keys=list(graph.nodes()))
 
 
 def array_from_graph_or_dict(graph, attr):
-- 
2.43.0


From f0c430ef4fe187473882148bbae8b4a4de519f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 03/43] fix: pass one-dimensional initial labels from networkx
 graphs

fit_from_networkx handed a two-dimensional array of labels to the matrix API
and raised TypeError for every initial_labels argument.
---
 region/p_regions/azp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 42027f4..29705bb 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -189,7 +189,8 @@ class AZP:
         adj = nx.to_scipy_sparse_matrix(graph)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).flatten()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
@@ -573,7 +574,8 @@ class AZPSimulatedAnnealing:
         adj = nx.to_scipy_sparse_matrix(graph)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).flatten()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
-- 
2.43.0


From 5ffa25cb3677710d1d42f1dfc8cc082d31ceca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 04/43] fix: one row per requested key in
 array_from_dict_values

Subsets and repetitions of keys in sorted_keys, which the docstring allows,
were reshaped to the number of keys of the dict.
---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 4d1e7f7..920daa8 100755
--- a/region/util.py
+++ b/region/util.py
@@ -74,7 +74,7 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     flat_arr = np.fromiter(it, dtype=dtype)
     if flat_output:
         return flat_arr
-    return flat_arr.reshape((len(dct), -1))
+    return flat_arr.reshape((len(sorted_keys), -1))
 
 
 def scipy_sparse_matrix_from_dict(neighbors):
-- 
2.43.0


From 2484da1ba3f47f9eee5e5c2f55ba677e905212a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 05/43] fix: reset the search memory of AZPReactiveTabu for
 each component

Zonings visited in another island or in an earlier fit were returned as the
result of the current one.
---
 region/p_regions/azp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 29705bb..67705f3 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -930,6 +930,10 @@ class AZPReactiveTabu(AZPTabu):
             Refer to the return value in :meth:`AZP._azp_connected_component`.
         """
         self.reset_tabu(1)
+        # forget what has been found in other components or previous runs
+        self.visited = []
+        self.avg_it_until_rep = 1
+        self.rep_counter = 1
         # if there is only one region in the initial solution, just return it.
         distinct_regions = list(np.unique(initial_labels))
         if len(distinct_regions) == 1:
-- 
2.43.0


From e6ad1f496f8e6396e8b564b75bee77585dd72d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 06/43] fix: let AZPReactiveTabu cope with having no move to
 make

It crashed if every area is alone in its region, if all moves are tabu, and
if fewer moves than needed were left for the random moves of step 11.
---
 region/p_regions/azp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 67705f3..6ce646e 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -980,7 +980,7 @@ class AZPReactiveTabu(AZPTabu):
                     best_move_index, best_move = i, move
                     best_objval_diff = obj_val_diff
             # step 5: Make the move if possible. Update the tabu status.
-            if self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+            if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                 self._make_move(best_move.area, best_move.new_region, labels, adj)
             # step 6: Look up the current zoning system in a list of all zoning
             # systems visited so far during the search. If not found then go
@@ -1015,8 +1015,9 @@ class AZPReactiveTabu(AZPTabu):
                         last_step = (11, tuple(labels))
                         self.visited = []
                         p = math.floor(1 + self.avg_it_until_rep / 2)
-                        possible_moves.pop(best_move_index)
-                        for _ in range(p):
+                        if best_move is not None:
+                            possible_moves.pop(best_move_index)
+                        for _ in range(min(p, len(possible_moves))):
                             move = possible_moves.pop(random.randrange(len(possible_moves)))
                             if self.allow_move_strategy(move.area, move.new_region, labels):
                                 self._make_move(move.area, move.new_region, labels, adj)
-- 
2.43.0


From 397ce4900bdc915be0dc6bc6e5034f7fd860a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 07/43] fix: keep the tabu length of AZPReactiveTabu an integer

Step 8 passed a float as the maximum length of the tabu list and crashed.
---
 region/p_regions/azp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 6ce646e..ad5aa96 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -1030,7 +1030,8 @@ class AZPReactiveTabu(AZPTabu):
                     self.avg_it_until_rep = 1 / self.rep_counter * \
                         ((self.rep_counter-1)*avg_it + it_until_repetition)
 
-                    self.tabu = deque(self.tabu, 1.1 * self.tabu.maxlen)
+                    self.tabu = deque(self.tabu,
+                                      math.ceil(1.1 * self.tabu.maxlen))
                     # step 9: If the number of iterations since R was last
                     # changed exceeds self.avg_it_until_rep, then decrease R to
                     # max(0.9*R, 1).
-- 
2.43.0


From c3428a49af29200bcee1fb0a74efd7a037953fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 08/43] fix: do not discard the last improving move of
 AZPReactiveTabu

The second last zoning was returned even if max_iterations was reached right
after an improving move. (This was why test_azp_reactive_tabu failed.)
---
 region/p_regions/azp.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index ad5aa96..cf6950d 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -1046,9 +1046,8 @@ class AZPReactiveTabu(AZPTabu):
             last_step = 10
 
         if last_step == 10:
-            try:
-                return np.array(self.visited[-2])
-            except IndexError:
-                return np.array(self.visited[-1])
+            return np.array(min(
+                self.visited[-2:],
+                key=lambda sol: self.objective_func(np.array(sol), attr)))
         # if step 11 was the last one, the result is in last_step[1]
         return np.array(last_step[1])
-- 
2.43.0


From 0d7d401ab816e6680a6653125228f589fb9d4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 09/43] fix: stop AZPBasicTabu when a zoning has been visited
 often enough

The condition was ignored as long as there was a move that does not worsen
the objective, so areas with equal attributes could be moved around forever.
---
 region/p_regions/azp.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index cf6950d..3bf4a9d 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -797,12 +797,11 @@ class AZPBasicTabu(AZPTabu):
         labels = initial_clustering
 
         visited = []
-        stop = False
         while True:
             # added termination condition (not in Openshaw & Rao (1995))
             label_tup = tuple(labels)
             if visited.count(label_tup) >= self.reps_before_termination:
-                stop = True
+                break
 
             visited.append(label_tup)
 
@@ -849,17 +848,12 @@ class AZPBasicTabu(AZPTabu):
                     
                         self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj)
                         
-                if stop:
-                        break
-                else:
-                    # step 4: If there is no improving move and no aspirational
-                    # move, then make the best move even if it is nonimproving
-                    # (that is, results in a worse value of the objective
-                    # function).
-                    if stop:
-                        break
-                    if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
-                        self._make_move(best_move.area, best_move.new_region, labels, adj)
+                # step 4: If there is no improving move and no aspirational
+                # move, then make the best move even if it is nonimproving
+                # (that is, results in a worse value of the objective
+                # function).
+                if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+                    self._make_move(best_move.area, best_move.new_region, labels, adj)
         return labels
 
 
-- 
2.43.0


From bccb0803ba9415acad12659eab35c7d58db5ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 10/43] fix: make only admissible aspiration moves in
 AZPBasicTabu

---
 region/p_regions/azp.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 3bf4a9d..b99b441 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -726,6 +726,19 @@ class AZPTabu(AZP, abc.ABC):
             self.tabu.append(reverse_move)
             return True
 
+    def _is_admissible(self, move, labels, adj):
+        """
+        Check whether a move can be made without emptying the donor region or
+        destroying its contiguity, and whether it leads to a neighboring
+        region.
+        """
+        if labels[move.area] != move.old_region \
+                or count(labels, move.old_region) <= 1 \
+                or move.new_region not in labels[neighbors(adj, move.area)]:
+            return False
+        return is_connected(sub_adj_matrix(
+            adj, np.where(labels == move.old_region)[0], wo_nodes=move.area))
+
     def reset_tabu(self, tabu_len=None):
         tabu_len = self.tabu.maxlen if tabu_len is None else tabu_len
         self.tabu = deque([], tabu_len)
@@ -837,7 +850,7 @@ class AZPBasicTabu(AZPTabu):
                 # (termed an aspiration move)
                 improving_tabus = [
                     move for move in self.tabu
-                    if labels[move.area] == move.old_region
+                    if self._is_admissible(move, labels, adj)
                     and self.objective_func.update(move.area, move.new_region,
                                                    labels, attr) < 0
                 ]
-- 
2.43.0


From 4dded9f78853d3a8a08fdf57208336f43107a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 11/43] fix: do not repeat an outdated best move after an
 aspiration move

---
 region/p_regions/azp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index b99b441..71d4f3f 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -865,7 +865,7 @@ class AZPBasicTabu(AZPTabu):
                 # move, then make the best move even if it is nonimproving
                 # (that is, results in a worse value of the objective
                 # function).
-                if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+                elif best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                     self._make_move(best_move.area, best_move.new_region, labels, adj)
         return labels
 
-- 
2.43.0


From d8725c14e0bd9714b68ae82b244414aa7757b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 12/43] fix: make only admissible random moves in
 AZPReactiveTabu

---
 region/p_regions/azp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 71d4f3f..94ed5de 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -1026,7 +1026,9 @@ class AZPReactiveTabu(AZPTabu):
                             possible_moves.pop(best_move_index)
                         for _ in range(min(p, len(possible_moves))):
                             move = possible_moves.pop(random.randrange(len(possible_moves)))
-                            if self.allow_move_strategy(move.area, move.new_region, labels):
+                            # earlier random moves may have ruled it out
+                            if self._is_admissible(move, labels, adj) \
+                                    and self.allow_move_strategy(move.area, move.new_region, labels):
                                 self._make_move(move.area, move.new_region, labels, adj)
                         continue
                     # step 8: Update a moving average of the repetition
-- 
2.43.0


From 7576b93c819150859eac8ca6ece1b517b7f3ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 13/43] fix: keep improving random moves made last by
 AZPReactiveTabu

---
 region/p_regions/azp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 94ed5de..5453458 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -1058,5 +1058,8 @@ class AZPReactiveTabu(AZPTabu):
             return np.array(min(
                 self.visited[-2:],
                 key=lambda sol: self.objective_func(np.array(sol), attr)))
-        # if step 11 was the last one, the result is in last_step[1]
-        return np.array(last_step[1])
+        # if step 11 was the last one, the zoning before its random moves is in
+        # last_step[1]
+        return np.array(min(
+            (last_step[1], tuple(labels)),
+            key=lambda sol: self.objective_func(np.array(sol), attr)))
-- 
2.43.0


From 523327773cef02a53086e18fd2dcaa1b57ba825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 14/43] fix: check the threshold for donor and recipient by the
 attributes' signs

---
 region/p_regions/azp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 683da60..05e7a1a 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -185,7 +185,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
     def __call__(self, moving_area, new_region, labels):
         sp_ext = self.spatially_extensive_attr
 
-        if (sp_ext[moving_area]).any() > 0:
+        if (sp_ext[moving_area] > 0).any():
             donor_region = labels[moving_area]
             donor_idx = np.where(labels == donor_region)[0]
             donor_sum = sum(sp_ext[donor_idx]) - sp_ext[moving_area]
@@ -193,7 +193,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
             if not threshold_reached_donor:
                 return False
 
-        elif (sp_ext[moving_area]).any() < 0:
+        if (sp_ext[moving_area] < 0).any():
             recipient_idx = np.where(labels == new_region)[0]
             recipient_sum = sum(sp_ext[recipient_idx]) + sp_ext[moving_area]
             threshold_reached_recipient = (recipient_sum >=
-- 
2.43.0


From e0866fb5c1f4fba6c85a64a56c1862073733ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 15/43] fix: expose the tracked objective value of the
 decorated strategy

---
 region/p_regions/azp_util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 05e7a1a..7b0d1d8 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -177,8 +177,6 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
                             comp_idx):
         self.spatially_extensive_attr = self.spatially_extensive_attr_all[
             comp_idx]
-        super().start_new_component(initial_labels, attr, objective_func,
-                                    comp_idx)
         self._decorated_strategy.start_new_component(initial_labels, attr,
                                                      objective_func, comp_idx)
 
@@ -206,6 +204,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
     def __getattr__(self, name):
         """
         Forward calls to unimplemented methods to _decorated_strategy
-        (necessary e.g. for :class:`AllowMoveAZPSimulatedAnnealing`).
+        (necessary e.g. for :class:`AllowMoveAZPSimulatedAnnealing` and for the
+        objective value which is updated there).
         """
         return getattr(self._decorated_strategy, name)
-- 
2.43.0


From 1309d0db3bd23a41e406fc2f40409ebb92a5bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 16/43] fix: wrap the local search's strategy once and only
 during the max-p fit

---
 region/max_p_regions/heuristics.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index d491871..932a00d 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -100,27 +100,31 @@ class MaxPRegionsHeu:
             feasible_partitions.append(
                 self.assign_enclaves(partition, enclaves, areas_dict, attr))
 
-        for partition in feasible_partitions:
-
-            # local search phase
-            if self.local_search is None:
-                self.local_search = AZP()
-            self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
-                spatially_extensive_attr, threshold,
-                self.local_search.allow_move_strategy)
+        # local search phase
+        local_search = self.local_search
+        if local_search is None:
+            local_search = AZP()
+        # ensure the threshold only during this fit, such that the caller can
+        # use local_search on its own (and in further fits) afterwards
+        decorated_strategy = local_search.allow_move_strategy
+        local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
+            spatially_extensive_attr, threshold, decorated_strategy)
+        try:
             for partition in feasible_partitions:
-                self.local_search.fit_from_scipy_sparse_matrix(
+                local_search.fit_from_scipy_sparse_matrix(
                     adj,
                     attr,
                     max_p,
                     initial_labels=array_from_region_list(partition),
                     objective_func=objective_func)
-                partition = self.local_search.labels_
+                partition = local_search.labels_
                 obj_value = objective_func(partition, attr)
                 if obj_value < best_obj_value:
                     best_obj_value = obj_value
                     best_partition = partition
-            self.labels_ = best_partition
+        finally:
+            local_search.allow_move_strategy = decorated_strategy
+        self.labels_ = best_partition
 
     fit = copy_func(fit_from_scipy_sparse_matrix)
     fit.__doc__ = "Alias for :meth:`fit_from_scipy_sparse_matrix`.\n\n" \
-- 
2.43.0


From d4f8eb5f54a57d6f1d71f43a1056a2bb9f052a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 17/43] fix: seed the default local search of MaxPRegionsHeu

---
 region/max_p_regions/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 932a00d..010ceef 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -103,7 +103,7 @@ class MaxPRegionsHeu:
         # local search phase
         local_search = self.local_search
         if local_search is None:
-            local_search = AZP()
+            local_search = AZP(random_state=self.random_state)
         # ensure the threshold only during this fit, such that the caller can
         # use local_search on its own (and in further fits) afterwards
         decorated_strategy = local_search.allow_move_strategy
-- 
2.43.0


From 086a0d09fbd9fd63a829ade54480235e53fe2b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 18/43] fix: keep the max-p threshold when simulated annealing
 is the local search

---
 region/p_regions/azp.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 5453458..f3801f1 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -10,6 +10,7 @@ from region.csgraph_utils import sub_adj_matrix, neighbors, is_connected
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp_util import AllowMoveStrategy, \
                                             AllowMoveAZP,\
+                                            AllowMoveAZPMaxPRegions,\
                                             AllowMoveAZPSimulatedAnnealing
 from region.util import array_from_df_col, array_from_dict_values, \
     assert_feasible, boolean_assert_feasible, copy_func, count, generate_initial_sol, \
@@ -619,11 +620,18 @@ class AZPSimulatedAnnealing:
                              "than 0 and less than 1")
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
-        self.allow_move_strategy = AllowMoveAZPSimulatedAnnealing(
+        sa_strategy = AllowMoveAZPSimulatedAnnealing(
             init_temperature=self.init_temperature,
             sa_moves_term=self.sa_moves_term)
-        self.allow_move_strategy.register_sa_moves_term(self.sa_moves_alert)
-        self.allow_move_strategy.register_move_made(self.move_made_alert)
+        sa_strategy.register_sa_moves_term(self.sa_moves_alert)
+        sa_strategy.register_move_made(self.move_made_alert)
+        if isinstance(self.allow_move_strategy, AllowMoveAZPMaxPRegions):
+            # local search in the max-p-regions problem: keep the threshold
+            self.allow_move_strategy = AllowMoveAZPMaxPRegions(
+                self.allow_move_strategy.spatially_extensive_attr_all,
+                self.allow_move_strategy.threshold, sa_strategy)
+        else:
+            self.allow_move_strategy = sa_strategy
 
         self.azp = AZP(
             allow_move_strategy=self.allow_move_strategy,
-- 
2.43.0


From 974d2be8ee94a733f27fe45c59b413eaf4972013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 19/43] fix: start each simulated annealing fit without memory
 of earlier fits

---
 region/p_regions/azp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index f3801f1..de6c3f5 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -458,6 +458,7 @@ class AZPSimulatedAnnealing:
         self.random_state = random_state
 
         self.n_regions = None
+        self.labels_ = None
 
     def fit_from_geodataframe(self,
                               gdf,
@@ -639,6 +640,9 @@ class AZPSimulatedAnnealing:
         # step a
         t = self.init_temperature
         nonmoving_steps = 0
+        # forget what has been found in previous runs
+        self.visited = []
+        self.move_made = False
         # step d: repeat step b and c
         while nonmoving_steps < self.nonmoving_steps_before_stop:
             it = 0
-- 
2.43.0


From 533af31168d7237ea5544e34d98a776ee2f26104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 20/43] fix: accept the default sa_moves_term of
 AllowMoveAZPSimulatedAnnealing

---
 region/p_regions/azp_util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 7b0d1d8..9455e2f 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -75,10 +75,11 @@ class AllowMoveAZPSimulatedAnnealing(AllowMoveStrategy):
         self.observers_min_sa_moves = []
         self.observers_move_made = []
         self.t = init_temperature
-        if not isinstance(sa_moves_term, numbers.Integral) or \
-                sa_moves_term < 1:
+        if sa_moves_term != float("inf") and (
+                not isinstance(sa_moves_term, numbers.Integral) or
+                sa_moves_term < 1):
             raise ValueError("The sa_moves_term argument must be a positive "
-                             "integer.")
+                             "integer or infinity.")
         self.sa_moves_term = sa_moves_term
         self.sa = 0  # number of SA-moves
         super().__init__()
-- 
2.43.0


From 40dce5b5643f220bf0cd3993c55514830ebc5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 21/43] fix: consider all regions in
 ObjectiveFunctionCenter.update

---
 region/objective_function.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index 2cb51bb..27488c6 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -144,22 +144,9 @@ class ObjectiveFunctionCenter(ObjectiveFunction):
             axis=0)
 
     def update(self, moving_area, recipient_region, labels, attr):
-        donor_region = labels[moving_area]
-
-        donor_before = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_before = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
-
-        labels[moving_area] = recipient_region
-        donor_after = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_after = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
-        labels[moving_area] = donor_region
-
-        overall_before = self.reduction((donor_before, recipient_before))
-        overall_after = self.reduction((donor_after, recipient_after))
-        diff = overall_after - overall_before
-
-        return diff
+        # All regions have to be considered because the change in the donor
+        # and recipient regions alone does not determine the change in the
+        # objective value for reductions other than the sum.
+        labels_after = labels.copy()
+        labels_after[moving_area] = recipient_region
+        return self(labels_after, attr) - self(labels, attr)
-- 
2.43.0


From dd4edc5b6a1f7292bb0a413355ca80a1ba385895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 22/43] fix: measure distances between attribute vectors in
 PRegionsExact

---
 region/p_regions/exact.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 5f62ab0..1fb39e1 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -330,8 +330,8 @@ def _flow(adj, attr, n_regions, solver, metric):
     K = range(n_regions)  # index for regions
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -442,8 +442,8 @@ def _order(adj, attr, n_regions, solver, metric):
     O = range(n_areas - n_regions)  # index for orders
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -527,8 +527,8 @@ def _tree(adj, attr, n_regions, solver, metric):
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II
     }
     # Decision variables
-- 
2.43.0


From 5bb195a3e2306bf8e6bd8d7083f6d31a0bad5019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 23/43] fix: let the flow model form regions of the maximum
 size

---
 region/p_regions/exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 1fb39e1..2c3d4e1 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -383,10 +383,11 @@ def _flow(adj, attr, n_regions, solver, metric):
             for k in K:
                 prob += f[i, j, k] <= y[j, k] * (n_areas - n_regions)
     # (26) in Duque et al. (2011): "The p-Regions Problem"
+    # (a region has up to n_areas - n_regions + 1 areas)
     for i in I:
         for k in K:
             lhs = sum(f[i, j, k] - f[j, i, k] for j in neighbors(adj, i))
-            prob += lhs >= y[i, k] - (n_areas - n_regions) * w[i, k]
+            prob += lhs >= y[i, k] - (n_areas - n_regions + 1) * w[i, k]
     # (27) in Duque et al. (2011): "The p-Regions Problem"
     for i, j in II_upper_triangle:
         for k in K:
-- 
2.43.0


From 42daeb2a97cbfe041e02b74f559659ffe53fad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 24/43] fix: let the order model form regions of one and two
 areas only

---
 region/p_regions/exact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 2c3d4e1..a16fba3 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -440,7 +440,7 @@ def _order(adj, attr, n_regions, solver, metric):
     II = [(i, j) for i in I for j in I]
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     K = range(n_regions)  # index for regions
-    O = range(n_areas - n_regions)  # index for orders
+    O = range(n_areas - n_regions + 1)  # index for orders
     d = {
         (i, j): metric(
             attr[i].reshape(1, -1),  # reshaping to...
-- 
2.43.0


From 521cce879eb77e2399bd10c4c9f2b7b421038018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 25/43] fix: bound the tree model's levels by the maximum
 region size

---
 region/p_regions/exact.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index a16fba3..c5b4e69 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -564,14 +564,16 @@ def _tree(adj, attr, n_regions, solver, metric):
         for j in neighbors(adj, i):
             prob += x[i, j] <= t[i, j]
     # (9) in Duque et al. (2011): "The p-Regions Problem"
+    # (a region has up to n_areas - n_regions + 1 areas)
+    max_size = n_areas - n_regions + 1
     for i in I:
         for j in neighbors(adj, i):
-            prob += u[i] - u[j] + (n_areas - n_regions) * x[i, j] \
-                    + (n_areas - n_regions - 2) * x[j, i] \
-                    <= n_areas - n_regions - 1
+            prob += u[i] - u[j] + max_size * x[i, j] \
+                    + (max_size - 2) * x[j, i] \
+                    <= max_size - 1
     # (10) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
-        prob += u[i] <= n_areas - n_regions
+        prob += u[i] <= max_size
         prob += u[i] >= 1
     # (11) in Duque et al. (2011): "The p-Regions Problem"
     # already in LpVariable-definition
-- 
2.43.0


From e942b34cfcc251806c5493fc6b8049cc8091b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 26/43] fix: read the regions of the tree model from its trees

---
 region/p_regions/exact.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index c5b4e69..8a9420e 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -5,10 +5,12 @@ from geopandas import GeoDataFrame
 import numpy as np
 import networkx as nx
 from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
+from scipy.sparse import csgraph as csg
+from scipy.sparse import dok_matrix
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, array_from_region_list, check_solver, copy_func,\
+    array_from_graph_or_dict, check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
@@ -584,18 +586,13 @@ def _tree(adj, attr, n_regions, solver, metric):
     solver = get_solver_instance(solver)
     prob.solve(solver)
 
-    # build a list of regions like [[0, 1, 2, 5], [3, 4, 6, 7, 8]]
-    idx_copy = set(I)
-    regions = [[] for _ in range(n_regions)]
-    for i in range(n_regions):
-        area = idx_copy.pop()
-        regions[i].append(area)
-
-        for other_area in idx_copy:
-            if t[area, other_area].varValue == 1:
-                regions[i].append(other_area)
-
-        idx_copy.difference_update(regions[i])
-
-    result = array_from_region_list(regions)
-    return result
+    # The regions are the trees. They cannot be read from the variables t which
+    # may be 1 for areas in different regions if there is no distance between
+    # them.
+    tree_links = dok_matrix((n_areas, n_areas))
+    for i in I:
+        for j in neighbors(adj, i):
+            if x[i, j].varValue == 1:
+                tree_links[i, j] = 1
+    _, result = csg.connected_components(tree_links.tocsr(), directed=False)
+    return result.astype(float)
-- 
2.43.0


From 91e479f3efb9e0bed37549ae52fc6379114c201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 27/43] fix: raise if the solver did not find an optimal
 solution

---
 region/max_p_regions/exact.py |  5 +++--
 region/p_regions/exact.py     |  5 ++++-
 region/util.py                | 20 ++++++++++++++++++++
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 978d7bc..d2194c0 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -9,8 +9,8 @@ from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, check_solver, copy_func, get_metric_function,\
-    get_solver_instance, raise_distance_metric_not_set,\
+    array_from_graph_or_dict, check_solution_status, check_solver, copy_func,\
+    get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
 
@@ -155,6 +155,7 @@ class MaxPRegionsExact:
         # Solve the optimization problem
         solver = get_solver_instance(solver)
         prob.solve(solver=solver)
+        check_solution_status(prob)
         result = np.zeros(n_areas)
         for i in I:
             for k in K:
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 8a9420e..195dc96 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -10,7 +10,7 @@ from scipy.sparse import dok_matrix
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, check_solver, copy_func,\
+    array_from_graph_or_dict, check_solution_status, check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
@@ -406,6 +406,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    check_solution_status(prob)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -492,6 +493,7 @@ def _order(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    check_solution_status(prob)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -585,6 +587,7 @@ def _tree(adj, attr, n_regions, solver, metric):
     # Solve the optimization problem
     solver = get_solver_instance(solver)
     prob.solve(solver)
+    check_solution_status(prob)
 
     # The regions are the trees. They cannot be read from the variables t which
     # may be 1 for areas in different regions if there is no distance between
diff --git a/region/util.py b/region/util.py
index 920daa8..b3b69c9 100755
--- a/region/util.py
+++ b/region/util.py
@@ -907,3 +907,23 @@ def get_solver_instance(solver_string):
     }[solver_string.lower()]
     solver_instance = solver()
     return solver_instance
+
+
+def check_solution_status(prob):
+    """
+    Parameters
+    ----------
+    prob : :class:`pulp.LpProblem`
+        A problem that has been passed to a solver.
+
+    Raises
+    ------
+    exc : `ValueError`
+        If the solver did not find an optimal solution, e.g. because there is
+        no feasible solution.
+    """
+    if prob.status != pulp.LpStatusOptimal:
+        raise ValueError(
+            "The solver did not find an optimal solution. Its status is "
+            '"{}".'.format(pulp.LpStatus[prob.status])
+        )
-- 
2.43.0


From 095ca45c9dbbb4cccf569f306dddfd8974997933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 28/43] fix: support identical attributes in MaxPRegionsExact

---
 region/max_p_regions/exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index d2194c0..ecfcf21 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -89,7 +89,8 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
-        h = 1 + floor(log10(sum(d[(i, j)] for i, j in II_upper_triangle)))
+        sum_d = sum(d[(i, j)] for i, j in II_upper_triangle)
+        h = 1 + floor(log10(sum_d)) if sum_d > 0 else 0
 
         # Decision variables
         t = LpVariable.dicts(
-- 
2.43.0


From f2edda6ded3768a66336303a5b10f3cd8c235044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 29/43] fix: tolerate solver values that are integral up to
 rounding only

---
 region/max_p_regions/exact.py | 2 +-
 region/p_regions/exact.py     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index ecfcf21..3fb7f95 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -161,7 +161,7 @@ class MaxPRegionsExact:
         for i in I:
             for k in K:
                 for o in O:
-                    if x[i, k, o].varValue == 1:
+                    if x[i, k, o].varValue > 0.5:
                         result[i] = k
         self.labels_ = result
         self.solver = solver
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 195dc96..0cf5258 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -410,7 +410,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
-            if y[i, k].varValue == 1:
+            if y[i, k].varValue > 0.5:
                 result[i] = k
     return result
 
@@ -498,7 +498,7 @@ def _order(adj, attr, n_regions, solver, metric):
     for i in I:
         for k in K:
             for o in O:
-                if x[i, k, o].varValue == 1:
+                if x[i, k, o].varValue > 0.5:
                     result[i] = k
     return result
 
@@ -595,7 +595,7 @@ def _tree(adj, attr, n_regions, solver, metric):
     tree_links = dok_matrix((n_areas, n_areas))
     for i in I:
         for j in neighbors(adj, i):
-            if x[i, j].varValue == 1:
+            if x[i, j].varValue > 0.5:
                 tree_links[i, j] = 1
     _, result = csg.connected_components(tree_links.tocsr(), directed=False)
     return result.astype(float)
-- 
2.43.0


From 624caa33ecd938659cccc84559edb8c56129df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 30/43] fix: keep identical neighbors adjacent in SKATER

---
 region/skater/skater.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 240edf9..882b405 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -78,8 +78,10 @@ class Spanning_Forest(object):
 
         super_verbose = verbose > 1
         start_W = time.time()
-        dissim = W.multiply(attribute_kernel)
-        dissim.eliminate_zeros()
+        dissim = W.multiply(attribute_kernel).tocsr()
+        # zero entries are no edges for scipy.sparse.csgraph, but neighbors
+        # without any dissimilarity are neighbors
+        dissim.data[dissim.data == 0] = np.finfo(float).tiny
         end_W = time.time() - start_W
         
         if super_verbose:
-- 
2.43.0


From 81c9513dc5bbcf9846ac61276aa9a0ddf7dcdc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 31/43] fix: let an affinity be used for scoring in SKATER

---
 region/skater/skater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 882b405..12caf1f 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -32,7 +32,7 @@ class Spanning_Forest(object):
         if affinity is not None:
             # invert the 0,1 affinity to 
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda *args, **kwargs: -np.log(affinity(*args, **kwargs))
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From f57f8aa8f7259fb52effceb1ecc027521dc9363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 32/43] fix: do not change the transformation of the W object
 passed to SKATER

---
 region/skater/skater.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 12caf1f..31b0e15 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -72,8 +72,9 @@ class Spanning_Forest(object):
             data = np.ones((W.n,1))
         else:
             attribute_kernel = self.metric(data)
-        W.transform = 'b'
-        W = W.sparse
+        # use binary weights without changing the caller's W object
+        W = W.sparse.copy()
+        W.data[:] = 1
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From 90024f9b363e31e8dae2bd3891a26da1ecb35f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 33/43] fix: score any region labels in SKATER

---
 region/skater/skater.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 31b0e15..f1212db 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -171,15 +171,14 @@ class Spanning_Forest(object):
                 raise ValueError('Labels not provided and MSF_Prune object has not been fit to data yet.')
         assert data.shape[0] == len(labels), "Length of label array ({}) does not match "\
                                              "length of data ({})! ".format(labels.shape[0], data.shape[0])
-        _, subtree_quorums = np.unique(labels, return_counts=True)
-        n_subtrees = len(subtree_quorums)
+        subtrees, subtree_quorums = np.unique(labels, return_counts=True)
         if (subtree_quorums < quorum).any():
             return np.inf
         part_scores = [self.reduction(self.metric(X=data[labels==l],
                                                   Y=self.center(data[labels==l], 
                                                                 axis=0).reshape(1,-1)
                                                  )
-                                     ) for l in range(n_subtrees)]
+                                     ) for l in subtrees]
         return self.reduction(part_scores).item()
     
     def find_cut(self, MSF, data=None, quorum=-np.inf, 
-- 
2.43.0


From 13233f3b610c1a027af584452110ba8a3814aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 34/43] fix: deny worsening moves once the temperature has
 reached zero

---
 region/p_regions/azp_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 9455e2f..c07978d 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -93,7 +93,8 @@ class AllowMoveAZPSimulatedAnnealing(AllowMoveStrategy):
             return True
         else:
 
-            prob = math.exp(-diff / self.t)
+            # the temperature may have been cooled down to zero
+            prob = math.exp(-diff / self.t) if self.t > 0 else 0
             move_allowed = random.random() < prob
             if move_allowed:
                 self.notify_move_made()
-- 
2.43.0


From 934f20bffe2d3ad71dec7c5db1773200a7ccabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 35/43] fix: sort the indices of adjacency matrices made from
 dicts

---
 region/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index b3b69c9..a3f7ab7 100755
--- a/region/util.py
+++ b/region/util.py
@@ -119,7 +119,10 @@ def scipy_sparse_matrix_from_dict(neighbors):
     for i in neighbors:
         for j in neighbors[i]:
             adj[name_to_int[i], name_to_int[j]] = 1
-    return adj.tocsr()
+    adj = adj.tocsr()
+    # the matrix must not depend on the order in which neighbors are listed
+    adj.sort_indices()
+    return adj
 
 
 def scipy_sparse_matrix_from_w(w):
-- 
2.43.0


From 5460fcb25794f45b33061c281d80a99e2506b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 36/43] fix: accept any iterable of sorted_keys in
 array_from_dict_values

---
 region/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/region/util.py b/region/util.py
index a3f7ab7..e77ae0f 100755
--- a/region/util.py
+++ b/region/util.py
@@ -65,6 +65,7 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     """
     if sorted_keys is None:
         sorted_keys = sorted(dct)
+    sorted_keys = list(sorted_keys)
     iterable_values = isinstance(dct[sorted_keys[0]], collections.Iterable)
     if iterable_values:
         it = itertools.chain.from_iterable(dct[key] for key in sorted_keys)
-- 
2.43.0


From a1db35c302c4b37567f1a199e102edaa990da60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 37/43] fix: accept tuples of column names in array_from_df_col

---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index e77ae0f..b87674d 100755
--- a/region/util.py
+++ b/region/util.py
@@ -337,7 +337,7 @@ def array_from_df_col(df, attr):
             raise value_error
     else:
         raise value_error
-    return np.array(df[attr])
+    return np.array(df[list(attr)])
 
 
 def w_from_gdf(gdf, contiguity):
-- 
2.43.0


From a5a9571687aa8293ee297a4336a04438ac9a7a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 38/43] fix: exact models stay optimal for small distances
 (solver tolerances are absolute)

---
 region/max_p_regions/exact.py |  5 ++++-
 region/p_regions/exact.py     |  9 ++++++++-
 region/util.py                | 30 ++++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 3fb7f95..2753ba3 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -11,7 +11,8 @@ from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solution_status, check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+    scale_up_factor, scipy_sparse_matrix_from_dict, \
+    scipy_sparse_matrix_from_w, w_from_gdf
 
 
 class MaxPRegionsExact:
@@ -89,6 +90,8 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
+        scale = scale_up_factor(d.values())
+        d = {pair: scale * distance for pair, distance in d.items()}
         sum_d = sum(d[(i, j)] for i, j in II_upper_triangle)
         h = 1 + floor(log10(sum_d)) if sum_d > 0 else 0
 
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 0cf5258..6abdd87 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -12,7 +12,8 @@ from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solution_status, check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+    scale_up_factor, scipy_sparse_matrix_from_dict, \
+    scipy_sparse_matrix_from_w, w_from_gdf
 
 
 class PRegionsExact:
@@ -336,6 +337,8 @@ def _flow(adj, attr, n_regions, solver, metric):
             attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
+    scale = scale_up_factor(d.values())
+    d = {pair: scale * distance for pair, distance in d.items()}
 
     # Decision variables
     t = LpVariable.dicts(
@@ -450,6 +453,8 @@ def _order(adj, attr, n_regions, solver, metric):
             attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
+    scale = scale_up_factor(d.values())
+    d = {pair: scale * distance for pair, distance in d.items()}
 
     # Decision variables
     t = LpVariable.dicts(
@@ -536,6 +541,8 @@ def _tree(adj, attr, n_regions, solver, metric):
             attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II
     }
+    scale = scale_up_factor(d.values())
+    d = {pair: scale * distance for pair, distance in d.items()}
     # Decision variables
     t = LpVariable.dicts(
         "t", ((i, j) for i, j in II), lowBound=0, upBound=1, cat=LpInteger)
diff --git a/region/util.py b/region/util.py
index b87674d..60caa44 100755
--- a/region/util.py
+++ b/region/util.py
@@ -931,3 +931,33 @@ def check_solution_status(prob):
             "The solver did not find an optimal solution. Its status is "
             '"{}".'.format(pulp.LpStatus[prob.status])
         )
+
+
+def scale_up_factor(values):
+    """
+    The solvers work with absolute tolerances. In order to make sure that they
+    do not neglect small numbers, these can be multiplied by the factor
+    calculated here.
+
+    Parameters
+    ----------
+    values : iterable of numbers
+
+    Returns
+    -------
+    factor : float
+        A power of two (such that multiplying by it is exact). Multiplying the
+        elements of `values` by it makes the largest absolute value at least
+        2**20 (unless all of them are zero).
+
+    Examples
+    --------
+    >>> scale_up_factor([0.25, -0.5, 0])
+    2097152.0
+    >>> scale_up_factor([0.25, 2**30])
+    1.0
+    """
+    largest = max((float(abs(val)) for val in values), default=0)
+    if not 0 < largest < 2**20:
+        return 1.
+    return 2.**min(21 - int(np.frexp(largest)[1]), 1000)
-- 
2.43.0


From 2f010bd3991ed738bb0622b6d4505bd94a7fc6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 39/43] fix: MaxPRegionsExact enforces small thresholds (solver
 tolerances are absolute)

---
 region/max_p_regions/exact.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 2753ba3..10c2aa6 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -127,21 +127,25 @@ class MaxPRegionsExact:
                                                 for j in neighbors(adj, i))
         # (5) in Duque et al. (2012): "The Max-p-Regions Problem"
         if isinstance(spatially_extensive_attr[I[0]], numbers.Real):
+            scale = scale_up_factor(spatially_extensive_attr)
             for k in K:
                 lhs = lpSum(x[i, k, o] * spatially_extensive_attr[i] for i in I
                             for o in O)
-                prob += lhs >= threshold * lpSum(x[i, k, 0] for i in I)
+                rhs = threshold * lpSum(x[i, k, 0] for i in I)
+                prob += scale * lhs >= scale * rhs
         elif isinstance(spatially_extensive_attr[I[0]], collections.Iterable):
             for el in range(len(spatially_extensive_attr[I[0]])):
+                scale = scale_up_factor(
+                    spatially_extensive_attr[i][el] for i in I)
                 for k in K:
                     lhs = lpSum(x[i, k, o] * spatially_extensive_attr[i][el]
                                 for i in I for o in O)
                     if isinstance(threshold, numbers.Real):
                         rhs = threshold * lpSum(x[i, k, 0] for i in I)
-                        prob += lhs >= rhs
+                        prob += scale * lhs >= scale * rhs
                     elif isinstance(threshold, np.ndarray):
                         rhs = threshold[el] * lpSum(x[i, k, 0] for i in I)
-                        prob += lhs >= rhs
+                        prob += scale * lhs >= scale * rhs
         # (6) in Duque et al. (2012): "The Max-p-Regions Problem"
         for i, j in II_upper_triangle:
             for k in K:
-- 
2.43.0


From b0e804f61e6186a34c9c0ee68267a0a1357e1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:48 +0000
Subject: [PATCH 40/43] fix: SKATER lost edges without dissimilarity if weights
 and dissimilarities are ints

---
 region/skater/skater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index f1212db..dad8e39 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -79,7 +79,7 @@ class Spanning_Forest(object):
 
         super_verbose = verbose > 1
         start_W = time.time()
-        dissim = W.multiply(attribute_kernel).tocsr()
+        dissim = W.multiply(attribute_kernel).tocsr().astype(float)
         # zero entries are no edges for scipy.sparse.csgraph, but neighbors
         # without any dissimilarity are neighbors
         dissim.data[dissim.data == 0] = np.finfo(float).tiny
-- 
2.43.0


From afe66698b95afe582e27fb673a04114d562028b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:48 +0000
Subject: [PATCH 41/43] fix: explicitly stored zeros of an adjacency matrix
 connected areas that are no neighbors

---
 region/csgraph_utils.py            | 30 ++++++++++++++++++++++++++++++
 region/max_p_regions/heuristics.py |  2 ++
 region/util.py                     |  5 +++--
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/region/csgraph_utils.py b/region/csgraph_utils.py
index 364b079..b6664b7 100755
--- a/region/csgraph_utils.py
+++ b/region/csgraph_utils.py
@@ -9,6 +9,35 @@ from scipy.sparse import csr_matrix
 import numpy as np
 
 
+def without_stored_zeros(adj):
+    """
+    Parameters
+    ----------
+    adj : :class:`scipy.sparse.csr_matrix`
+        Adjacency matrix.
+
+    Returns
+    -------
+    adj : :class:`scipy.sparse.csr_matrix`
+        The same matrix without explicitly stored zeros. (The routines of
+        :mod:`scipy.sparse.csgraph` take such an entry for an edge.)
+
+    Examples
+    --------
+    >>> from scipy.sparse import csr_matrix
+    >>> adj = csr_matrix(([1, 1, 0, 0], ([0, 1, 1, 2], [1, 0, 2, 1])))
+    >>> without_stored_zeros(adj).nnz
+    2
+    >>> adj.nnz
+    4
+    """
+    adj = csr_matrix(adj)
+    if not adj.data.all():
+        adj = adj.copy()
+        adj.eliminate_zeros()
+    return adj
+
+
 def is_connected(adj):
     """
     Parameters
@@ -35,6 +64,7 @@ def is_connected(adj):
     >>> is_connected(disconnected)
     False
     """
+    adj = without_stored_zeros(adj)
     n_connected_components = csg.connected_components(adj, directed=False,
                                                       return_labels=False)
     return True if n_connected_components == 1 else False
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 010ceef..330a0c6 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -3,6 +3,7 @@ import random
 import networkx as nx
 from libpysal import weights
 
+from region.csgraph_utils import without_stored_zeros
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp import AZP
 from region.p_regions.azp_util import AllowMoveAZPMaxPRegions
@@ -74,6 +75,7 @@ class MaxPRegionsHeu:
             The objective function to use.
         """
 
+        adj = without_stored_zeros(adj)
         w = weights.WSP(adj).to_W()
         areas_dict = w.neighbors
         self.metric = objective_func.metric
diff --git a/region/util.py b/region/util.py
index 60caa44..22517d7 100755
--- a/region/util.py
+++ b/region/util.py
@@ -12,7 +12,7 @@ import networkx as nx
 from libpysal import weights
 import pulp
 
-from region.csgraph_utils import sub_adj_matrix, is_connected
+from region.csgraph_utils import sub_adj_matrix, is_connected, without_stored_zeros
 
 Move = collections.namedtuple("move", "area old_region new_region")
 "A named tuple representing a move from `old_region` to `new_region`."  # sphinx
@@ -616,6 +616,7 @@ def generate_initial_sol(adj, n_regions):
             "({}).".format(n_regions, n_areas)
         )
 
+    adj = without_stored_zeros(adj)
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
         raise ValueError(
@@ -841,7 +842,7 @@ def separate_components(adj, labels):
     >>> (yielded[1] == np.array([-1, -1, -1, -1, -1, -1, 3, 3, 3, 3])).all()
     True
     """
-    n_comps, comp_labels = csg.connected_components(adj)
+    n_comps, comp_labels = csg.connected_components(without_stored_zeros(adj))
     for comp in set(comp_labels):
         region_labels = -np.ones(len(comp_labels), dtype=np.int32)
         in_comp = comp_labels == comp
-- 
2.43.0


From c5f0e90937f1364fcde2fa5076a9d1e1dad529c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:48 +0000
Subject: [PATCH 42/43] fix: MaxPRegionsHeu crashed if areas are neighbors of
 themselves

---
 region/max_p_regions/heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 330a0c6..e6e9325 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -397,10 +397,12 @@ class MaxPRegionsHeu:
                         region.add(neigh)
                         unassigned_neighs.remove(neigh)
                         unassigned_neighs.update(set(adj[neigh].nonzero()[1]))
+                        # before the following line: areas might be their own
+                        # neighbors
+                        assigned_areas.append(neigh)
                         unassigned_neighs.difference_update(assigned_areas)
                         spat_ext_attr += spatially_extensive_attr[neigh]
                         unassigned_areas.remove(neigh)
-                        assigned_areas.append(neigh)
                     else:
                         enclave_areas.extend(region)
                         feasible = False
-- 
2.43.0


From c9ecde0142abc80adc04edb36372ebcb6b39cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:48 +0000
Subject: [PATCH 43/43] fix: sums of spatially extensive attributes of small
 integer types overflowed

---
 region/max_p_regions/heuristics.py | 3 ++-
 region/p_regions/azp_util.py       | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index e6e9325..1bd596b 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -389,7 +389,8 @@ class MaxPRegionsHeu:
                 unassigned_neighs = set(
                     adj[area].nonzero()[1]).difference(assigned_areas)
                 feasible = True
-                spat_ext_attr = spatially_extensive_attr[area].copy()
+                # summing up widens small integer types, which might overflow
+                spat_ext_attr = spatially_extensive_attr[[area]].sum(axis=0)
                 while (spat_ext_attr < threshold).any():
                     if unassigned_neighs:
                         neigh = self.find_best_area(region, unassigned_neighs,
diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index c07978d..a1d1df7 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -188,14 +188,15 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
         if (sp_ext[moving_area] > 0).any():
             donor_region = labels[moving_area]
             donor_idx = np.where(labels == donor_region)[0]
-            donor_sum = sum(sp_ext[donor_idx]) - sp_ext[moving_area]
+            donor_sum = sp_ext[donor_idx].sum(axis=0) - sp_ext[moving_area]
             threshold_reached_donor = (donor_sum >= self.threshold).all()
             if not threshold_reached_donor:
                 return False
 
         if (sp_ext[moving_area] < 0).any():
             recipient_idx = np.where(labels == new_region)[0]
-            recipient_sum = sum(sp_ext[recipient_idx]) + sp_ext[moving_area]
+            recipient_sum = sp_ext[recipient_idx].sum(axis=0) \
+                + sp_ext[moving_area]
             threshold_reached_recipient = (recipient_sum >=
                                            self.threshold).all()
             if not threshold_reached_recipient:
-- 
2.43.0

