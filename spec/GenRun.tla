------------------------------- MODULE GenRun -------------------------------
(* An instance, an algorithm with its parameters and the preprocessing steps. *)
EXTENDS GenBase
Heuristics == {"suurballes_heuristic", "bfs_extension_collapse", "bfs_path_extension_collapse", "suurballes_extension_collapse", "suurballes_path_extension_collapse"}
MyOpts(h) ==
  [alg |-> TLCEval(IF Coin(1, 3) THEN "solve_pctsp" ELSE IF Coin(1, 25) THEN R({"extension", "disjoint_tours_relaxation"}) ELSE R(Heuristics)),
   warm |-> TLCEval(IF Coin(1, 3) THEN "" ELSE R(Heuristics)),
   csp |-> TLCEval(R({0, 1, 1, 2})), depth |-> TLCEval(R({0, 2, 2, 3, 4})), step |-> TLCEval(R({0, 1, 2, 3})),
   pre |-> TLCEval([x \in 1..3 |-> Coin(1, 2)]), cut |-> TLCEval(IF Coin(1, 30) THEN R({1, 2}) ELSE 0),
   cc_dp |-> TLCEval(Coin(1, 2)), cc_sp |-> TLCEval(Coin(1, 2)), sec_dt |-> TLCEval(Coin(3, 4)), sec_mf |-> TLCEval(Coin(3, 4)),
   strat |-> TLCEval(R({0, 1, 2, 4})), bmax |-> TLCEval(R({-1, 0, 2})), tail |-> TLCEval(R({-1, 1, 5})), freq |-> TLCEval(R({1, 1, 2})),
   thr |-> TLCEval(R({0, 10, 500}))]
=============================================================================
