------------------------------ MODULE GenTables ------------------------------
(* Vials with every optional setting present or absent, results for some of them,
   statistics of the solver for some of them, and a second (exact) experiment
   whose bounds the results are measured against.                             *)
EXTENDS GenBase
No == -999
O(S, a, b) == TLCEval(IF Coin(a, b) THEN R(S) ELSE No)
Algs == {"disjoint_tours_relaxation", "extension", "bfs_extension_collapse", "bfs_path_extension_collapse", "solve_pctsp",
         "suurballes_extension_collapse", "suurballes_heuristic", "suurballes_path_extension_collapse"}
TData(h, ds, key) ==
  [dataset |-> ds, cost_function |-> TLCEval(R({"EUC_2D", "MST"})),
   graph_name |-> TLCEval(IF ds = "tspwplib" THEN R({"att48", "eil51"}) ELSE R({"laqbbA", "laqkxA"})),
   quota |-> TLCEval(R({3, 5, 8})), root |-> TLCEval(R({0, 1})), alpha |-> O({5, 10}, 1, 2), generation |-> TLCEval(IF ds = "tspwplib" THEN R({"gen1", "gen2"}) ELSE ""),
   kappa |-> TLCEval(IF ds = "tspwplib" \/ Coin(1, 3) THEN R({5, 10}) ELSE No), triangle |-> O({0}, 1, 2)]
TModel(exact) ==
  [algorithm |-> TLCEval(IF exact THEN "solve_pctsp" ELSE R(Algs)), is_exact |-> TLCEval(R({0, 1})), is_heuristic |-> TLCEval(R({0, 1})), is_relaxation |-> TLCEval(R({0, 1})),
   branching_strategy |-> O({0, 1, 2, 4}, 1, 2), branching_max_depth |-> O({-1, 0, 1}, 1, 2), collapse_paths |-> O({0, 1}, 1, 2),
   cost_cover_disjoint_paths |-> TLCEval(IF exact THEN R({0, 1, 1}) ELSE O({0, 1}, 1, 2)), cost_cover_shortest_path |-> O({0, 1}, 1, 2),
   heuristic |-> TLCEval(IF Coin(1, 2) THEN R(Algs) ELSE ""), path_depth_limit |-> O({2, 3}, 1, 2), sec_disjoint_tour |-> O({0, 1}, 1, 2),
   sec_lp_gap_improvement_threshold |-> O({0, 1, 50}, 1, 2), sec_maxflow_mincut |-> O({0, 1}, 1, 2), sec_max_tailing_off_iterations |-> O({-1, 5}, 1, 2),
   sec_sepafreq |-> O({1, 2}, 1, 2), step_size |-> O({1, 10}, 1, 2), time_limit |-> O({60, 14400}, 1, 2)]
TPre == [disjoint_path_cutoff |-> TLCEval(R({0, 1})), remove_leaves |-> TLCEval(R({0, 1})), remove_disconnected_components |-> TLCEval(R({0, 1})),
         remove_one_connected_components |-> TLCEval(R({0, 1})), shortest_path_cutoff |-> TLCEval(R({0, 1}))]
TVial(h, ds, exact) == [data |-> TData(h, ds, 0), model |-> TModel(exact), pre |-> TPre]
TResult(h, v) == [v |-> v, objective |-> TLCEval(IF Coin(1, 6) THEN R(1000..1000000) ELSE R(0..60)), prize |-> TLCEval(R(0..9)), t0 |-> TLCEval(R(0..900000)), dt |-> TLCEval(R({0, 1, 999, 1000, 61001, 90000000})),
               edges |-> TLCEval([y \in 1..R(0..4) |-> <<R(0..9), R(0..9)>>])]
TStats(h) == [status |-> TLCEval(R(0..12)), lower_bound |-> TLCEval(R(1..40)), upper_bound |-> TLCEval(R(1..60)), counts |-> TLCEval([y \in 1..8 |-> R(0..99)])]
Which(nv) == TLCEval(IF nv = 0 THEN <<>> ELSE SubSeq(Shuffle(1..nv), 1, R(0..nv)))
MyOpts(h) ==
  LET ds == TLCEval(R({"tspwplib", "londonaq"})) nv == TLCEval(R({1, 1, 2, 3, 4, 5})) ne == TLCEval(R(1..4)) w == Which(nv) x == Which(ne) IN
  [dataset |-> ds, vials |-> TLCEval([y \in 1..nv |-> TVial(h, ds, FALSE)]), results |-> TLCEval([y \in 1..Len(w) |-> TResult(h, w[y])]),
   exact |-> TLCEval([y \in 1..ne |-> TVial(h, ds, TRUE)]), xresults |-> TLCEval([y \in 1..Len(x) |-> TResult(h, x[y])]),
   stats |-> TLCEval([y \in 1..ne |-> [on |-> Coin(4, 5), torn |-> Coin(1, 12), s |-> TStats(h)]]),
   pretty |-> [long |-> Coin(1, 2), idx |-> Coin(1, 2), drop |-> Coin(1, 3)]]
=============================================================================
