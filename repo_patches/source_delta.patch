From d2364f464cc5062299894a6c49c54d062e61b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 01/40] fix: take the cost cover bound from the new best
 solution, not from SCIP's upper bound, which may still be infinite when the
 event is raised

---
 src/cost_cover.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index a7998b4..36d16ad 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -77,7 +77,9 @@ SCIP_DECL_EVENTDELETE(CostCoverEventHandler::scip_delete) {
 }
 
 SCIP_DECL_EVENTEXEC(CostCoverEventHandler::scip_exec) {
-    CostNumberType cost_upper_bound = (CostNumberType) SCIPgetUpperbound(scip);
+    // the event may be raised before SCIP has updated its upper bound (which can still be infinite),
+    // so the bound is the cost of the new best solution itself
+    CostNumberType cost_upper_bound = (CostNumberType) SCIPgetSolOrigObj(scip, SCIPeventGetSol(event));
     unsigned int nconss = separateThenAddCostCoverInequalities(scip, _path_distances, cost_upper_bound);
     increaseNumConssAdded(nconss);
     return SCIP_OKAY;
-- 
2.43.0


From 5781f4e56c7f9c782db83f74bd45832bb16eef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 02/40] fix: do not add a cost cover inequality that pairs the
 root with itself: it makes every tour infeasible when the root's own
 disjoint-path cost exceeds the bound

---
 src/cost_cover.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index 36d16ad..431f805 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -94,6 +94,8 @@ unsigned int separateThenAddCostCoverInequalities(SCIP* scip, std::vector<CostNu
     auto violated_vertices = separateCostCoverPaths(graph, path_distances, cost_upper_bound);
     unsigned int num_conss_added = 0;
     for (auto& vertex: violated_vertices) {
+        // the root is in every tour: pairing the root with itself is not a cover
+        if (vertex == root_vertex) continue;
         num_conss_added ++;
         std::vector<PCTSPvertex> cover_vertices = {root_vertex, vertex};
         addCoverInequalityFromVertices(scip, graph, cover_vertices, edge_variable_map);
-- 
2.43.0


From baf145a3b6ad63c1fc8d976d337723fa137a2b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 03/40] fix: iterate over a copy of the incident edge list
 while processing it in Suurballe's algorithm: edges were skipped and a
 costlier pair of paths returned

---
 pctsp/suurballe/suurballe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pctsp/suurballe/suurballe.py b/pctsp/suurballe/suurballe.py
index d6f086d..7dee563 100644
--- a/pctsp/suurballe/suurballe.py
+++ b/pctsp/suurballe/suurballe.py
@@ -302,7 +302,8 @@ def suurballe_shortest_vertex_disjoint_paths(
             T.labeled[v] = True  # make v labeled
 
             # process edges incident to v
-            for u, w in T.edges_incident_to_vertex[v]:
+            # (iterate over a copy because processing an edge removes it from the list)
+            for u, w in list(T.edges_incident_to_vertex[v]):
                 process(T, u, w, v)
 
             # denoted x in the paper
@@ -426,7 +427,8 @@ def scan_parent(T, x, v):
     v : node
         Node which causes edge (u,w) to be processed.
     """
-    for u, w in T.edges_incident_to_vertex[x]:
+    # iterate over a copy because processing an edge removes it from the list
+    for u, w in list(T.edges_incident_to_vertex[x]):
         # u and w are in different subtrees so process edge
         if u != x and is_ancestor(T, v, u):
             process(T, u, w, v)
-- 
2.43.0


From 78a1549b29c825a4f2d50c56c9e05c7a16f9dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 04/40] fix: return the randomly chosen pair of disjoint paths
 that was checked to form a cycle, and raise the documented ValueError when
 none does

---
 pctsp/algorithms/heuristic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 5d11a1c..3f47483 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -189,15 +189,14 @@ def random_tour_from_disjoint_paths_map(
         error_message += "(excluding between the root and itself)"
         raise ValueError(error_message)
 
-    keep_repeating = True
-    vertex = random.choice(vertex_choices)
-    while len(vertex_choices) >= 0 and keep_repeating:
+    while len(vertex_choices) > 0:
+        vertex = random.choice(vertex_choices)
         first_path = disjoint_paths_map[vertex][0]
         second_path = disjoint_paths_map[vertex][1]
-        keep_repeating = len(first_path) + len(second_path) < 5
+        if len(first_path) + len(second_path) >= 5:
+            return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
         vertex_choices.remove(vertex)
-        vertex = random.choice(vertex_choices)
-    return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
+    raise ValueError("No pair of vertex disjoint paths forms a cycle")
 
 
 def find_cycle_from_bfs(G: nx.Graph, root_vertex: Vertex) -> VertexList:
-- 
2.43.0


From 45baf868db785c1c2934dc239ce3d937a8004495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 05/40] fix: only initialise the tour from a pair of disjoint
 paths that forms a simple cycle: the root's own pair visits the root twice

---
 pctsp/algorithms/heuristic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 3f47483..5f92e3c 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -88,7 +88,7 @@ def suurballes_tour_initialization(
     for disjoint_paths in vertex_disjoint_paths_map.values():
         tour = tour_from_vertex_disjoint_paths(disjoint_paths)
         prize_of_tour = total_prize_of_tour(prize_map, tour)
-        if prize_of_tour > biggest_prize:
+        if prize_of_tour > biggest_prize and len(set(tour)) == len(tour) - 1:
             biggest_tour = tour
             biggest_prize = prize_of_tour
     return biggest_tour
-- 
2.43.0


From f3116936c23d3ea78726d3fe0b805dc75c0e8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:52 +0000
Subject: [PATCH 06/40] fix: copy the non-singular components themselves, not
 the first ones

---
 include/pctsp/data_structures.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/data_structures.hh b/include/pctsp/data_structures.hh
index f27060f..58683d4 100644
--- a/include/pctsp/data_structures.hh
+++ b/include/pctsp/data_structures.hh
@@ -94,7 +94,7 @@ std::vector<std::vector<TVertex>> getNonSingularConnectedComponentVectors(
     std::vector<std::vector<TVertex>> non_singular_components (n_non_singular_components);
     int i = 0;
     for (auto& component_id : non_singular_component_ids) {
-        auto& component = component_vectors[i];
+        auto& component = component_vectors[component_id];
         non_singular_components[i] = std::vector<TVertex> (component.size());
         std::copy(component.begin(), component.end(), non_singular_components[i].begin());
         i++;
-- 
2.43.0


From 083bdec29144f218b0d1ba51639d977bba173ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:01 +0000
Subject: [PATCH 07/40] fix: update the prize of the tour after each path
 extension so the heuristic stops once the quota is met

---
 include/pctsp/heuristic.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pctsp/heuristic.hh b/include/pctsp/heuristic.hh
index b4ba7c5..2c243b4 100644
--- a/include/pctsp/heuristic.hh
+++ b/include/pctsp/heuristic.hh
@@ -352,6 +352,7 @@ void pathExtensionUntilPrizeFeasible(
             auto external_path = extension_paths[index_of_smallest_loss];
             int last_index = (index_of_smallest_loss + step_size) % k;
             swapPathsInTour(tour, external_path, index_of_smallest_loss, last_index);
+            prize = totalPrizeOfTour(prize_map, tour);
         }
     }
 }
-- 
2.43.0


From 7c429d2b9a663f457cc075421c0c299efba900b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:01 +0000
Subject: [PATCH 08/40] fix: pass step size and path depth limit to the path
 extension in the order it takes them

---
 pctsp/algorithms/path_extension_collapse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/path_extension_collapse.py b/pctsp/algorithms/path_extension_collapse.py
index 815a455..3ae2fd7 100644
--- a/pctsp/algorithms/path_extension_collapse.py
+++ b/pctsp/algorithms/path_extension_collapse.py
@@ -84,8 +84,8 @@ def path_extension(
         cost_dict,
         prize_dict,
         root_vertex,
-        path_depth_limit,
         step_size,
+        path_depth_limit,
         logging_level,
     )
 
-- 
2.43.0


From 250293f21723f46563130f596428d4d4d68816eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:12 +0000
Subject: [PATCH 09/40] fix: leave vertices without edges out when filling a
 renamed vertex map: their lookup read past the end of the map and wrote to a
 garbage index

---
 include/pctsp/renaming.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pctsp/renaming.hh b/include/pctsp/renaming.hh
index 0903fa3..540c9f8 100644
--- a/include/pctsp/renaming.hh
+++ b/include/pctsp/renaming.hh
@@ -168,9 +168,9 @@ void fillRenamedVertexMap(
     boost::bimap<NewVertex, OldVertex>& vertex_id_map
 ) {
     for (const auto& [key, value] : old_prize_map) {
-        OldVertex old = key;
-        NewVertex v = getNewVertex(vertex_id_map, old);
-        new_prize_map[v] = value;
+        // vertices without edges are not in the renamed graph
+        auto it = vertex_id_map.right.find(key);
+        if (it != vertex_id_map.right.end()) new_prize_map[(*it).second] = value;
     }
 }
  
-- 
2.43.0


From aa54013f194160eb0be89080ed95fa35b7051e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:12 +0000
Subject: [PATCH 10/40] fix: report a root vertex without edges instead of
 looking it up past the end of the vertex map

---
 pctsp/pypctsp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pctsp/pypctsp.cpp b/pctsp/pypctsp.cpp
index 78fdaf3..067cc59 100644
--- a/pctsp/pypctsp.cpp
+++ b/pctsp/pypctsp.cpp
@@ -71,6 +71,8 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> pySolvePrizeCollectingTSP(
     // rename the edges in the heuristic solution and the root vertex
     auto heur_edges_renamed = getNewEdges(vertex_bimap, heuristic_edges);
     auto heur_edges = edgesFromVertexPairs(graph, heur_edges_renamed);
+    if (vertex_bimap.right.find(root_vertex) == vertex_bimap.right.end())
+        throw VertexNotFoundException(std::to_string(root_vertex));
     auto new_root = getNewVertex(vertex_bimap, root_vertex);
 
     // fill the cost map and prize map using renamed vertices
-- 
2.43.0


From 8e2cf622a0001fbc831223c4813ba0e661aa94af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:45 +0000
Subject: [PATCH 11/40] fix: infeasible_vials skips unreadable result files as
 missing_vials does

---
 pctsp/lab/lab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index 940dae8..baf042e 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -81,7 +81,7 @@ class Lab:
                 )
                 if result.prize < vial.data_config.quota:
                     infeasible.append(vial)
-            except FileNotFoundError:
+            except (FileNotFoundError, json.JSONDecodeError):
                 pass
         return infeasible
 
-- 
2.43.0


From 3728ae9397fb7f97fa493b3d1edf83a81bae8bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 12/40] fix: extension & collapse uses the tour that was
 extended until prize-feasible

---
 pctsp/lab/run_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index c0ab4f0..a5bdc48 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -101,7 +101,7 @@ def run_heuristic(
         AlgorithmName.suurballes_extension_collapse,
     ]:
         # run extension with unitary gain then collapse
-        extension_until_prize_feasible(graph, small_tour, quota)
+        small_tour = extension_until_prize_feasible(graph, small_tour, quota)
         tour = extension_unitary_gain_collapse(
             graph,
             small_tour,
-- 
2.43.0


From 6a4396c1822e1aeffa58214e3de709ebe15102be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 13/40] fix: pass collapse_paths of the vial to a heuristic

---
 pctsp/lab/run_algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index a5bdc48..fc4a09d 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -186,6 +186,7 @@ def run_algorithm(
             disjoint_paths_cost_map=cost_map,
             disjoint_paths_map=vertex_disjoint_paths_map,
             logger=logger,
+            collapse_shortest_paths=vial.model_params.collapse_paths,
             path_depth_limit=vial.model_params.path_depth_limit,
             step_size=vial.model_params.step_size,
         )
-- 
2.43.0


From 21aad1b0950ba69021c8e393470506c091381d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:21 +0000
Subject: [PATCH 14/40] fix: path extension & collapse without a starting tour
 finds no tour

---
 pctsp/lab/run_algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index fc4a09d..ac77a7f 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -120,7 +120,8 @@ def run_heuristic(
             graph.number_of_nodes() if not path_depth_limit else path_depth_limit
         )
         step: int = 10 if not step_size else step_size
-        tour = path_extension_collapse(
+        # there is nothing to extend or collapse without a tour to start from
+        tour = small_tour and path_extension_collapse(
             graph,
             small_tour,
             root_vertex,
-- 
2.43.0


From aabc7d820f55e3c23821c8c101dbf2d77d87a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:21 +0000
Subject: [PATCH 15/40] fix: alpha percent of the total prize is the londonaq
 quota: the londonaq problem of tspwplib has no get_quota

---
 pctsp/compare/product_of_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/compare/product_of_params.py b/pctsp/compare/product_of_params.py
index 8cd9e7c..255ace5 100644
--- a/pctsp/compare/product_of_params.py
+++ b/pctsp/compare/product_of_params.py
@@ -108,7 +108,7 @@ def product_of_londonaq_data_config_from_alpha(
                 cost_function=problems[name].edge_weight_type,
                 dataset=DatasetName.londonaq,
                 graph_name=name,
-                quota=problems[name].get_quota(alpha),
+                quota=int(alpha * problems[name].get_total_prize() / 100.0),
                 root=problems[name].get_root_vertex(),
                 alpha=alpha,
             )
-- 
2.43.0


From a567f853043a5155df215bcdbd38a96fe41284c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 16/40] fix: pretty tables replace branching codes in the
 branching column only, not every 0, 1, 2 and 4 of the table

---
 pctsp/apps/tables_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/tables_app.py b/pctsp/apps/tables_app.py
index b7fa05c..9d92e5d 100644
--- a/pctsp/apps/tables_app.py
+++ b/pctsp/apps/tables_app.py
@@ -185,7 +185,7 @@ def pretty_dataframe(df: pd.DataFrame, long: bool = False) -> pd.DataFrame:
         4: "Default",
     }
     if "branching_strategy" in df:
-        df = df.replace(branching_replacements)
+        df = df.replace({"branching_strategy": branching_replacements})
     if "branching_strategy" in df.index.names:
         df = df.rename(index=branching_replacements, level=col)
 
-- 
2.43.0


From 75248d83be265872ff83f7a2ec98d7f7e4d0507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:35 +0000
Subject: [PATCH 17/40] fix: ask Slurm for at most two days in hours, not for
 two days in seconds

---
 pctsp/apps/main_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 62993f8..4d78f7e 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -278,7 +278,7 @@ def slurm(
     output_filename = f"joboutput_{experiment_name.value}_%j.out"
     error_filename = f"joboutput_{experiment_name.value}_%j.err"
 
-    two_days_in_hours = 2 * 24 * 3600
+    two_days_in_hours = 2 * 24
     expected_cpu_time = math.ceil(float(batch_size) * (time_limit / 3600.0))
     slurm_time_limit_hours = min(expected_cpu_time + 1, two_days_in_hours)
 
-- 
2.43.0


From 789df4b997e55c9671525cb1c6694798bd0a73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:56 +0000
Subject: [PATCH 18/40] fix: the max-flow separation pairs every edge of the
 root's component with its own capacity

---
 src/subtour_elimination.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index d50d156..0267300 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -334,10 +334,13 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     // only get edges that are in the same connected components as the root
     VertexPairVector edge_vector = getVertexPairVectorFromEdgeSubset(input_graph, solution_edges);
     VertexPairVector root_edge_vector;
+    CapacityVector root_capacity_vector;
 
-    for (auto pair : edge_vector) {
+    for (int i = 0; i < edge_vector.size(); i++) {
+        auto pair = edge_vector[i];
         if (root_component.count(pair.first) >= 1 && root_component.count(pair.second) >= 1) {
             root_edge_vector.push_back(pair);
+            root_capacity_vector.push_back(capacity_vector[i]);
         }
     }
     // create mapping from input vertices to support vertices (they will be renamed)
@@ -351,7 +354,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     auto residual_capacity = boost::get(edge_residual_capacity, support_graph);
     for (int i = 0; i < support_edges.size(); i++) {
         auto pair = support_edges[i];
-        auto cap = capacity_vector[i];
+        auto cap = root_capacity_vector[i];
 
         // add edge in both directions since the graph is undirected
         auto edge1 = boost::add_edge(pair.first, pair.second, cap, support_graph);
-- 
2.43.0


From b727dc079cbbc863e291ab71571e8e59d7c93200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 19/40] fix: read the summary statistics back in the order of
 their fields

---
 src/stats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats.cpp b/src/stats.cpp
index cc6395f..449ca92 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -31,8 +31,8 @@ SummaryStats readSummaryStatsFromYaml(std::filesystem::path& filename) {
         stats_yaml["lower_bound"].as<double>(),
         stats_yaml["upper_bound"].as<double>(),
         stats_yaml["num_cost_cover_disjoint_paths"].as<unsigned int>(),
-        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["num_cost_cover_shortest_paths"].as<unsigned int>(),
+        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["nconss_presolve_shortest_paths"].as<unsigned int>(),
         stats_yaml["num_cycle_cover"].as<unsigned int>(),
         stats_yaml["num_nodes"].as<long long>(),
-- 
2.43.0


From 94c500d45f228330d757012f6c28996fd5d4b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:07 +0000
Subject: [PATCH 20/40] fix: keep one record for every visited node, and its
 cut counts, in the node statistics

---
 src/event_handlers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index b2ab5de..12217e6 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -90,7 +90,8 @@ SCIP_DECL_EVENTDELETE(NodeEventhdlr::scip_delete) {
 SCIP_DECL_EVENTEXEC(NodeEventhdlr::scip_exec) {
     SCIP_NODE* node = SCIPgetCurrentNode(scip);
     auto node_id = SCIPnodeGetNumber(node);
-    if (node_id >= node_stats_.size()) {
+    // add a record the first time a node is visited, whatever the order of the visits
+    if (node_id > node_stats_.size() || node_stats_[node_id - 1].node_id != node_id) {
         addCurrentNode(scip);
     }
     return SCIP_OKAY;
-- 
2.43.0


From b335838ceeb77583314e4f7a6d71b5cc4085e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 21/40] fix: report the bounds of the summary in the costs of
 the input, not of SCIP's scaled problem

---
 src/algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 37dc50f..bc914af 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -100,8 +100,8 @@ SummaryStats getSummaryStatsFromSCIP(SCIP* scip) {
 
     SummaryStats summary = {
         SCIPgetStatus(scip),
-        SCIPgetLowerbound(scip),
-        SCIPgetUpperbound(scip),
+        SCIPgetDualbound(scip),
+        SCIPgetPrimalbound(scip),
         num_cost_cover_disjoint_paths,
         num_cost_cover_shortest_paths,
         nconss_presolve_disjoint_paths,
-- 
2.43.0


From 3e7b511c12639cdde454385928db2342ac250bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:36 +0000
Subject: [PATCH 22/40] fix: record node and relaxation bounds in the costs of
 the input

---
 src/event_handlers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index 12217e6..e9ccea1 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -13,7 +13,7 @@ NodeStats newStatsForNode(SCIP* scip, SCIP_NODE* node) {
    unsigned int parent_id = 1;
    if (node_id > 1) parent_id = SCIPnodeGetNumber(SCIPnodeGetParent(node));
    NodeStats stats = {
-      SCIPnodeGetLowerbound(node),
+      SCIPgetNodeDualbound(scip, node),
       node_id,
       0,
       0,
@@ -21,7 +21,7 @@ NodeStats newStatsForNode(SCIP* scip, SCIP_NODE* node) {
       0,
       0,
       parent_id,
-      SCIPgetUpperbound(scip)
+      SCIPgetPrimalbound(scip)
    };
    return stats;
 }
@@ -151,8 +151,8 @@ SCIP_DECL_EVENTEXEC(BoundsEventHandler::scip_exec) {
     TimePointUTC start;
     start = getLastTimestamp();
     TimePointUTC end = time_point_cast<SubSeconds>(system_clock::now());
-    double lower_bound = SCIPgetLowerbound(scip);
-    double upper_bound = SCIPgetUpperbound(scip);
+    double lower_bound = SCIPgetDualbound(scip);
+    double upper_bound = SCIPgetPrimalbound(scip);
     SCIP_NODE* node = SCIPgetCurrentNode(scip);
     unsigned int node_id = SCIPnodeGetNumber(node);
     Bounds bounds = {start, end, lower_bound, upper_bound, node_id};
-- 
2.43.0


From 001def496964b9500fbe23237d53836025326251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:52 +0000
Subject: [PATCH 23/40] fix: write time stamps in UTC with three digits of
 milliseconds

---
 src/event_handlers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index e9ccea1..448e4d6 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -106,8 +106,9 @@ std::string timePointToString(TimePointUTC& time_stamp) {
     tm utc_tm = *gmtime(&tt);
     std::string time_zone_string = "Z";
     char mbstr[100];
-    std::strftime(mbstr, sizeof(mbstr), "%FT%T", std::localtime(&tt));
-    std::string all = std::string(mbstr) + "." + std::to_string(ms.count()) + time_zone_string;
+    std::strftime(mbstr, sizeof(mbstr), "%FT%T", &utc_tm);
+    std::string ms_string = std::to_string(1000 + ms.count()).substr(1);    // three digits
+    std::string all = std::string(mbstr) + "." + ms_string + time_zone_string;
     return all;
 }
 
-- 
2.43.0


From bea8eee8d490d317f78889f961230b6920c0bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 24/40] fix: report a missing summary file instead of passing
 an unconstructed message to the exception's base

---
 include/pctsp/exception.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index 3e5ecea..4b9b241 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -91,7 +91,7 @@ class FileDoesNotExistError : public std::filesystem::filesystem_error {
         FileDoesNotExistError(const std::string& what_arg, const std::filesystem::path& p1, std::error_code ec) : std::filesystem::filesystem_error(what_arg, p1, ec) {};
 
         FileDoesNotExistError(std::filesystem::path& filepath): FileDoesNotExistError(
-            message, filepath, std::make_error_code(std::errc::no_such_file_or_directory)
+            "File does not exist: ", filepath, std::make_error_code(std::errc::no_such_file_or_directory)
         ) {};            
         // const char* what() const throw() {
         //     return message.c_str();
-- 
2.43.0


From 0c5c42fd5f49f0a112d0247f33550184a3930c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:01 +0000
Subject: [PATCH 25/40] fix: measure the gap of a node between bounds in the
 same units when deciding whether it tails off

---
 src/subtour_elimination.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 0267300..9e806a7 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -206,7 +206,7 @@ SCIP_DECL_CONSENFOLP(PCTSPconshdlrSubtour::scip_enfolp) {
     }
     else {
         SCIP_NODE* node = SCIPgetCurrentNode(scip);
-        double gap = SCIPcomputeGap(SCIPepsilon(scip), SCIPinfinity(scip), SCIPgetPrimalbound(scip), SCIPnodeGetLowerbound(node));
+        double gap = SCIPcomputeGap(SCIPepsilon(scip), SCIPinfinity(scip), SCIPgetPrimalbound(scip), SCIPgetNodeDualbound(scip, node));
         int node_id = SCIPnodeGetNumber(node);
         if (node_id >= node_rolling_lp_gap.size()) {
             auto new_size = node_id + 1;
-- 
2.43.0


From 930d8e22350851fa146a06e32d2e2774b5cba340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 26/40] fix: show every message of a logger once, however often
 the logger was got

---
 pctsp/utils/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pctsp/utils/utils.py b/pctsp/utils/utils.py
index b15071f..9775218 100644
--- a/pctsp/utils/utils.py
+++ b/pctsp/utils/utils.py
@@ -11,6 +11,11 @@ def get_pctsp_logger(name: str, level: int = logging.INFO) -> logging.Logger:
     logger = logging.getLogger(name)
     logger.setLevel(level)
 
+    # replace the console handler of an earlier call: with two every message is shown twice
+    for handler in list(logger.handlers):
+        if isinstance(handler.formatter, colorlog.ColoredFormatter):
+            logger.removeHandler(handler)
+
     # create console handler and set level to debug
     console_handler = logging.StreamHandler()
     console_handler.setLevel(level)
-- 
2.43.0


From c3fcc979d15ce53f2e70e32e8f5580acdd6c8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:33 +0000
Subject: [PATCH 27/40] fix: strong branching lifts the depth limit of an
 earlier strong branching at the tree top

---
 src/branching.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/branching.cpp b/src/branching.cpp
index 6b15135..cab6f7c 100644
--- a/src/branching.cpp
+++ b/src/branching.cpp
@@ -79,8 +79,9 @@ void setStrongBranchingStrategy(SCIP* scip) {
         SCIP_BRANCHRULE* rule = rules[i];
         std::string name = SCIPbranchruleGetName(rule);
         if (name == BRANCHING_RULE_NAMES::FULL_STRONG) {
-            // set strong branching to be highest priority
+            // set strong branching to be highest priority, at every depth
             SCIPsetBranchrulePriority(scip, rule, 4000);
+            SCIPsetBranchruleMaxdepth(scip, rule, -1);
         }
         else if (name == BRANCHING_RULE_NAMES::RELPSCOST) {
             // set relative psuedo cost to be second priority
-- 
2.43.0


From 67a93155e342100d97779ac66994fd40db400d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:41 +0000
Subject: [PATCH 28/40] fix: an integral relaxation that tails off is left to
 the other rules: SCIP aborted the search because branching did not run

---
 src/subtour_elimination.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 9e806a7..616d860 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -217,7 +217,9 @@ SCIP_DECL_CONSENFOLP(PCTSPconshdlrSubtour::scip_enfolp) {
             && (SCIPgetLPSolstat(scip) == SCIP_LPSOLSTAT_UNBOUNDEDRAY || SCIPgetLPSolstat(scip) == SCIP_LPSOLSTAT_OPTIMAL)) {
             // resolve the infeasibility by branching
             BOOST_LOG_TRIVIAL(debug)<< "BRANCHING in enfolp: Node " << std::to_string(node_id) << " found to be tailing off. Gap is " << std::to_string(gap) << ". Threshold is " << std::to_string(sec_lp_gap_improvement_threshold) << std::endl;
-            SCIPbranchLP(scip, result);
+            SCIP_CALL(SCIPbranchLP(scip, result));
+            // an integral relaxation has no candidates to branch on: SCIP does not accept that branching did not run
+            if (*result == SCIP_DIDNOTRUN) *result = SCIP_INFEASIBLE;
         }
         else {
             // resolve the infeasibility by adding a subtour elimination constraint
-- 
2.43.0


From 3c284b278d724432c71660487d55df76341334a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:11 +0000
Subject: [PATCH 29/40] fix: statistics of an instance looked up the disjoint
 paths costs with the wrong biggest vertex

---
 pctsp/apps/dataset_app.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index ca4bf14..f3d62f2 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -144,7 +144,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         tree, biggest_vertex
     )
     biggest_prize = 0
-    biggest_vertex = None
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
         prize = (
@@ -155,7 +154,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         )
         if prize > biggest_prize:
             biggest_prize = prize
-            biggest_vertex = u
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-- 
2.43.0


From 19fa506269fc31cb6aea711c10d9ed7f373a2ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:11 +0000
Subject: [PATCH 30/40] fix: statistics of an instance took two cycles through
 the root for a pair of disjoint paths

---
 pctsp/apps/dataset_app.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index f3d62f2..9adbdbb 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -146,6 +146,8 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
     biggest_prize = 0
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
+        if u == root_vertex:  # two cycles through the root, not two paths
+            continue
         prize = (
             total_prize(prize_map, path1)
             + total_prize(prize_map, path2)
@@ -157,7 +159,9 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-        vertex_disjoint_cost_map(tree, biggest_vertex).values()
+        cost
+        for u, cost in vertex_disjoint_cost_map(tree, biggest_vertex).items()
+        if u != root_vertex
     )
 
     # preprocessing
-- 
2.43.0


From f2207ed1f79f60b0c37f843f1557d4b7f6abf11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:17 +0000
Subject: [PATCH 31/40] fix: write the table of heuristics to its file

---
 pctsp/apps/tables_app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pctsp/apps/tables_app.py b/pctsp/apps/tables_app.py
index 9d92e5d..c06b767 100644
--- a/pctsp/apps/tables_app.py
+++ b/pctsp/apps/tables_app.py
@@ -541,7 +541,8 @@ def heuristics_table(
     )
     print(table_str)
     logger.info("Writing table to LaTeX file: %s", table_tex_filepath)
-    # table_tex_filepath.write_text(table_str, encoding="utf-8")
+    tables_dir.mkdir(exist_ok=True, parents=False)
+    table_tex_filepath.write_text(table_str, encoding="utf-8")
 
 
 @tables_app.command(name="all")
-- 
2.43.0


From 74f3e91e7f5862e68b8145c04253bb4c458bdcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:17 +0000
Subject: [PATCH 32/40] fix: create the directory of the data set table like
 those of the other tables

---
 pctsp/apps/tables_app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pctsp/apps/tables_app.py b/pctsp/apps/tables_app.py
index c06b767..77e02ad 100644
--- a/pctsp/apps/tables_app.py
+++ b/pctsp/apps/tables_app.py
@@ -134,6 +134,7 @@ def summarize_dataset(
         )
     print(df)
     dataset_logger.info("Writing dataset LaTeX table to %s", tables_path)
+    tables_dir.mkdir(exist_ok=True, parents=False)
     df.style.format_index(make_column_name_pretty, axis="columns").format_index(
         make_column_name_pretty, axis="index"
     ).to_latex(
-- 
2.43.0


From 4d2264381a0c79a324f6857893d1ddb437664597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:17 +0000
Subject: [PATCH 33/40] fix: do not count infeasible runs as optimal in the
 tailing off table

---
 pctsp/apps/tables_app.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pctsp/apps/tables_app.py b/pctsp/apps/tables_app.py
index 77e02ad..87e6b80 100644
--- a/pctsp/apps/tables_app.py
+++ b/pctsp/apps/tables_app.py
@@ -237,8 +237,11 @@ def tailing_off_table(
         / f"{dataset.value}_{experiment_name.value}.csv"
     )
     todf: pd.DataFrame = pd.read_csv(filename)  # tailing off dataframe
+    # infinite bounds have no gap, and infeasible instances are not solved to optimality
+    for bound in ["lower_bound", "upper_bound"]:
+        todf[bound] = todf[bound].replace(SCIP_BIG_NUMBER, np.nan)
     todf["gap"] = (todf["upper_bound"] - todf["lower_bound"]) / todf["lower_bound"]
-    todf["optimal"] = todf["gap"] == 0
+    todf["optimal"] = (todf["gap"] == 0) & (todf["status"] == SCIP_STATUS_OPTIMAL)
     todf["mean_sec_disjoint_tour_per_node"] = (
         todf["num_sec_disjoint_tour"] / todf["num_nodes"]
     )
-- 
2.43.0


From 87fecd757f7f8f27296bab0dc23fc2fa6ec41fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:00 +0000
Subject: [PATCH 34/40] fix: write the table of an experiment that has no
 results yet

---
 pctsp/apps/csv_app.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pctsp/apps/csv_app.py b/pctsp/apps/csv_app.py
index 68ead24..6591467 100644
--- a/pctsp/apps/csv_app.py
+++ b/pctsp/apps/csv_app.py
@@ -31,7 +31,10 @@ def experiment_summary_df(
 ) -> pd.DataFrame:
     """Get a dataframe summarizing the results of an experiment"""
     vial_df = dataframe_from_vial_list(experiment.vials)
-    result_df = pd.DataFrame(map(lambda x: x.dict(), results))
+    # name the columns so that an experiment without results has an empty table
+    result_df = pd.DataFrame(
+        map(lambda x: x.dict(), results), columns=list(Result.__fields__)
+    )
     joined_df = vial_df.merge(result_df, left_on="uuid", right_on="vial_uuid")
     joined_df["duration"] = (joined_df["end_time"] - joined_df["start_time"]).apply(
         lambda x: x.total_seconds()
@@ -60,7 +63,9 @@ def summary_stats_df(root_dir: Path, ids: List[UUID]) -> pd.DataFrame:
             stats_list.append(stats_dict)
         except (FileNotFoundError, yaml.YAMLError):
             pass
-    return pd.DataFrame.from_records(stats_list)
+    return pd.DataFrame.from_records(
+        stats_list, columns=[*SummaryStats.__fields__, "vial_uuid"]
+    )
 
 
 @csv_app.command(name="heuristics")
-- 
2.43.0


From c1fa8de81a78e0440d7907e1a1878079c88e5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:22 +0000
Subject: [PATCH 35/40] fix: a drawing of edges joined the end of each edge to
 the start of the next

---
 pctsp/plot/plot_edges.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pctsp/plot/plot_edges.py b/pctsp/plot/plot_edges.py
index 829d793..69e8062 100644
--- a/pctsp/plot/plot_edges.py
+++ b/pctsp/plot/plot_edges.py
@@ -19,10 +19,15 @@ def edge_scatter(
     edge_np = edge_df[[source, target]].to_numpy()
 
     # apply x/y coordinate mapper and flatten arrays
+    # None separates the edges: otherwise the end of an edge is joined to the next one
     edge_x = np.array(
         list(
             map(
-                lambda x: (vertex_df.at[x[0], x_name], vertex_df.at[x[1], x_name]),
+                lambda x: (
+                    vertex_df.at[x[0], x_name],
+                    vertex_df.at[x[1], x_name],
+                    None,
+                ),
                 edge_np,
             )
         )
@@ -30,7 +35,11 @@ def edge_scatter(
     edge_y = np.array(
         list(
             map(
-                lambda x: (vertex_df.at[x[0], y_name], vertex_df.at[x[1], y_name]),
+                lambda x: (
+                    vertex_df.at[x[0], y_name],
+                    vertex_df.at[x[1], y_name],
+                    None,
+                ),
                 edge_np,
             )
         )
-- 
2.43.0


From 8d135e70a8b9ab7b56ab1f42b58d7625c2164529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:22 +0000
Subject: [PATCH 36/40] fix: vertices could not be drawn with a current plotly
 (colorbar title)

---
 pctsp/plot/plot_vertices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/plot/plot_vertices.py b/pctsp/plot/plot_vertices.py
index e9d32ac..f8c121c 100644
--- a/pctsp/plot/plot_vertices.py
+++ b/pctsp/plot/plot_vertices.py
@@ -24,7 +24,7 @@ def vertex_scatter(
             size=10,
             color=vertex_df[color],
             colorbar=go.scatter.marker.ColorBar(
-                thickness=15, title="Prize", xanchor="left", titleside="right"
+                thickness=15, title={"text": "Prize", "side": "right"}, xanchor="left"
             ),
             line_width=2,
         ),
-- 
2.43.0


From 8070c90a37eb5dab83b73a7aebf7af8704140ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:22 +0000
Subject: [PATCH 37/40] fix: the layout of a graph could not be made with a
 current plotly (title font)

---
 pctsp/plot/plot_graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pctsp/plot/plot_graph.py b/pctsp/plot/plot_graph.py
index af3da9e..823340a 100644
--- a/pctsp/plot/plot_graph.py
+++ b/pctsp/plot/plot_graph.py
@@ -19,8 +19,7 @@ def graph_trace(edge_df: pd.DataFrame, vertex_df: pd.DataFrame) -> List[go.Scatt
 def graph_layout() -> go.Layout:
     """Plotly layout of graph"""
     return go.Layout(
-        title="<br>Network graph made with Python",
-        titlefont_size=16,
+        title={"text": "<br>Network graph made with Python", "font": {"size": 16}},
         showlegend=False,
         hovermode="closest",
         margin={"b": 20, "l": 5, "r": 5, "t": 40},
-- 
2.43.0


From 05fc18871fcb1e399fe21df1d70cdf6f8794d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:22 +0000
Subject: [PATCH 38/40] fix: tour edges were looked up by position in rows with
 string labels (KeyError)

---
 pctsp/plot/plot_tour.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pctsp/plot/plot_tour.py b/pctsp/plot/plot_tour.py
index a266e5f..bbc649f 100644
--- a/pctsp/plot/plot_tour.py
+++ b/pctsp/plot/plot_tour.py
@@ -32,7 +32,9 @@ def tour_edges_trace(
 
     # filter edges
     tour_edge_mask = edge_df[[source, target]].apply(
-        lambda x: (x[0], x[1]) in tour_edge_set or (x[1], x[0]) in tour_edge_set, axis=1
+        lambda x: (x[source], x[target]) in tour_edge_set
+        or (x[target], x[source]) in tour_edge_set,
+        axis=1,
     )
     tour_edge_df = edge_df.loc[tour_edge_mask]
 
-- 
2.43.0


From df7b630812ad7e1dbdaa5f52f833a98f5db40d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:11 +0000
Subject: [PATCH 39/40] fix: count the subtour cuts that are added, not every
 call

The numbers of disjoint-tour and max-flow cuts of a node included cuts that
were put forward but not added, because the point does not violate them.
---
 include/pctsp/subtour_elimination.hh | 8 ++++++--
 src/subtour_elimination.cpp          | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/pctsp/subtour_elimination.hh b/include/pctsp/subtour_elimination.hh
index 376e08f..de5cf95 100644
--- a/include/pctsp/subtour_elimination.hh
+++ b/include/pctsp/subtour_elimination.hh
@@ -156,6 +156,7 @@ SCIP_RETCODE PCTSPseparateDisjointTour(
                 i++;
             }
             for (auto target_vertex: vertex_set) {
+                SCIP_RESULT added = SCIP_DIDNOTFIND;
                 SCIP_CALL(addSubtourEliminationConstraint(
                     scip,
                     conshdlr,
@@ -165,9 +166,12 @@ SCIP_RETCODE PCTSPseparateDisjointTour(
                     root_vertex,
                     target_vertex,
                     sol,
-                    result
+                    &added
                 ));
-                num_conss_added ++;
+                if (added != SCIP_DIDNOTFIND) {
+                    *result = added;
+                    num_conss_added ++;
+                }
             }
         }
     }
diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 616d860..3f27ca2 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -411,6 +411,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
                 for (auto &unreachable_vertex: unreachable) {
                     // for each unreachable vertex add a subtour elimination constraint
                     auto input_target_vertex = getOldVertex(lookup, unreachable_vertex);
+                    SCIP_RESULT added = SCIP_DIDNOTFIND;
                     SCIP_CALL(addSubtourEliminationConstraint(
                         scip,
                         conshdlr,
@@ -420,9 +421,12 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
                         root_vertex,
                         input_target_vertex,
                         sol,
-                        result
+                        &added
                     ));
-                    num_conss_added ++;
+                    if (added != SCIP_DIDNOTFIND) {
+                        *result = added;
+                        num_conss_added ++;
+                    }
                     // mark the unreachable target vertex to remember we have already added a SEC
                     added_sec[getNewVertex(lookup, input_target_vertex)] = true;
                 }
-- 
2.43.0


From 02d27c6fcf02f3c83dc8e09d8391789f2a2237ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:01 +0000
Subject: [PATCH 40/40] fix: write bounds to the tables with all their digits

The default precision of a stream keeps six digits: a bound of 1234567 was
written as 1.23457e+06.
---
 src/stats.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stats.cpp b/src/stats.cpp
index 449ca92..0400886 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -1,5 +1,6 @@
 #include "pctsp/exception.hh"
 #include "pctsp/stats.hh"
+#include <limits>
 #include <yaml-cpp/yaml.h>
 
 void writeSummaryStatsToYaml(SummaryStats& summary, std::filesystem::path& filename) {
@@ -61,6 +62,7 @@ unsigned int numMaxflowMincutSECs(std::vector<NodeStats>& node_stats) {
 void writeNodeStatsToCSV(std::vector<NodeStats>& node_stats, std::filesystem::path& file_path) {
     if (std::filesystem::exists(file_path.parent_path())) {
         std::ofstream csv_file(file_path.string());
+        csv_file.precision(std::numeric_limits<double>::max_digits10);
         writeNodeStatsColumnNames(csv_file);
         for (NodeStats& stat : node_stats) {
             writeNodeStatsRow(stat, csv_file);
@@ -89,6 +91,7 @@ void writeNodeStatsColumnNames(std::ofstream& csv_file) {
 void writeBoundsToCSV(std::vector<Bounds>& bounds_vector, std::filesystem::path& file_path) {
     if (std::filesystem::exists(file_path.parent_path())) {
         std::ofstream csv_file(file_path);
+        csv_file.precision(std::numeric_limits<double>::max_digits10);
         writeBoundsColumnsNames(csv_file);
         for (Bounds& bounds : bounds_vector) {
             writeBoundsRow(bounds, csv_file);
-- 
2.43.0

