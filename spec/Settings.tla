------------------------------ MODULE Settings ------------------------------
(* The settings that experiments and commands give to models and preprocessing.
   None is -999 (numbers and flags) or "" (words).                            *)
EXTENDS Integers, Sequences
No == -999
\* ------------------------------------------------------------- algorithms
Exact == {"solve_pctsp"}
Relax == {"disjoint_tours_relaxation"}
Flag(b) == IF b THEN 1 ELSE 0
Plain(a) ==
  [algorithm |-> a, is_exact |-> Flag(a \in Exact), is_heuristic |-> Flag(a \notin Exact \cup Relax), is_relaxation |-> Flag(a \in Relax),
   branching_strategy |-> No, branching_max_depth |-> No, collapse_paths |-> No, cost_cover_disjoint_paths |-> No, cost_cover_shortest_path |-> No,
   heuristic |-> "", path_depth_limit |-> No, sec_disjoint_tour |-> No, sec_lp_gap_improvement_threshold |-> No, sec_maxflow_mincut |-> No,
   sec_max_tailing_off_iterations |-> No, sec_sepafreq |-> No, step_size |-> No, time_limit |-> No]
Cuts(p, lim) == [p EXCEPT !.sec_disjoint_tour = 1, !.sec_maxflow_mincut = 1, !.sec_lp_gap_improvement_threshold = 1, !.sec_sepafreq = 1, !.time_limit = lim]
\* a plain model: subtour elimination only; reliability branching; no tailing off
Model(a, csp, depth, step, lim) ==
  IF a \in Exact THEN [Cuts(Plain(a), lim) EXCEPT !.branching_max_depth = -1, !.branching_strategy = 0, !.cost_cover_disjoint_paths = 0,
                       !.cost_cover_shortest_path = 0, !.sec_max_tailing_off_iterations = -1]
  ELSE IF a = "bfs_extension_collapse" THEN [Plain(a) EXCEPT !.collapse_paths = csp, !.path_depth_limit = depth, !.step_size = step]
  ELSE Plain(a)
Models(as, csp, depth, step, lim) == [x \in DOMAIN as |-> Model(as[x], csp, depth, step, lim)]
FourHours == 14400
\* branch and cut, strong branching at the top of the tree
Branch(heur, csp, step, dp, sp, strat, tail) ==
  [Cuts(Plain("solve_pctsp"), FourHours) EXCEPT !.branching_max_depth = 1, !.branching_strategy = strat, !.collapse_paths = csp, !.heuristic = heur,
   !.cost_cover_disjoint_paths = dp, !.cost_cover_shortest_path = sp, !.sec_max_tailing_off_iterations = tail, !.step_size = step]
Warm == "suurballes_path_extension_collapse"
CostCovers == <<Branch(Warm, 1, 10, 0, 0, 2, 5), Branch(Warm, 1, 10, 1, 0, 2, 5), Branch(Warm, 1, 10, 0, 1, 2, 5)>>
Tailings == [x \in 1..6 |-> Branch(Warm, 1, 10, 1, 0, IF x <= 3 THEN 2 ELSE 4, <<-1, 5, 10>>[((x - 1) % 3) + 1])]
EC(a) == [Plain(a) EXCEPT !.collapse_paths = 0, !.path_depth_limit = 2, !.step_size = 1]
PEC(a) == [Plain(a) EXCEPT !.collapse_paths = 1, !.step_size = 10]
AllHeuristics == <<EC("bfs_extension_collapse"), PEC("bfs_path_extension_collapse"), EC("suurballes_extension_collapse"),
                   PEC("suurballes_path_extension_collapse"), Plain("suurballes_heuristic")>>
Pre(d, l, o) == [disjoint_path_cutoff |-> 0, remove_leaves |-> l, remove_disconnected_components |-> d, remove_one_connected_components |-> o,
                 shortest_path_cutoff |-> 0]
=============================================================================
