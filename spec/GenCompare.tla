----------------------------- MODULE GenCompare -----------------------------
(* Data sets (prizes and depots of the files), parameter lists to multiply out,
   and experiments to set up.                                                 *)
EXTENDS GenBase
CONSTANT EXPW      \* one in EXPW histories sets up a whole experiment

TspNames == {"att48", "st70", "eil51", "rat195", "a280"}
LaqNames == {"laqbbA", "laqidA", "laqkxA", "laqwsA", "laqtinyA"}
Algs == {"disjoint_tours_relaxation", "extension", "bfs_extension_collapse", "bfs_path_extension_collapse", "solve_pctsp",
         "suurballes_extension_collapse", "suurballes_heuristic", "suurballes_path_extension_collapse"}
Exps == {"baseline", "compare_heuristics", "cost_cover", "disjoint_tours_vs_heuristics", "dryrun", "simple_branch_cut", "tailing_off",
         "cc_londonaq_alpha", "londonaq_alpha"}
Pick(S, n) == [j \in 1..n |-> TLCEval(R(S))]
Some(S, lo, hi) == TLCEval(Pick(S, R(lo..hi)))
OneFile(h) == [prize |-> TLCEval([j \in 1..h.n |-> R(0..PMAX)]), depot |-> TLCEval(R(0..(h.n - 1)))]
Alphas == {0, 1, 5, 10, 33, 50, 67, 75, 99, 100}
MyOpts(h) ==
  LET o == TLCEval(IF Coin(1, EXPW) THEN 9 ELSE R(1..6))
      odd == TLCEval(Coin(1, 12))
  IN [tsp |-> TLCEval([y \in 1..3 |-> [s \in 1..4 |-> OneFile(h)]]), laq |-> TLCEval([s \in 1..5 |-> OneFile(h)]),
      op |-> TLCEval(CASE o = 1 -> "tsp" [] o = 2 -> "laq" [] o = 3 -> "laqalpha" [] o = 4 -> "model" [] o = 5 -> "prep" [] o = 6 -> "vials" [] OTHER -> "exp"),
      alphas |-> TLCEval(IF odd THEN Some(Alphas \cup {-1, 101}, 1, 2) ELSE Some(Alphas, 0, 3)),
      kappas |-> Some({-999, 0, 1, 2, 5}, 0, 3), gens |-> Some({"gen1", "gen2", "gen3"}, 0, 3), names |-> Some(TspNames, 0, 3),
      cfs |-> Some({"EUC_2D", "MST", "SEMI_MST", "UNIFORM_RANDOM", "GEO"}, 0, 3),
      quotas |-> Some(0..9999, 0, 3), lnames |-> Some(LaqNames, 0, 4),
      algs |-> Some(Algs, 0, 5), csp |-> TLCEval(R({-999, 0, 1})), depth |-> TLCEval(R({-999, 1, 2, 7})), step |-> TLCEval(R({-999, 1, 3, 10})),
      limit |-> TLCEval(R({-999, 1, 10, 3600})),
      pres |-> TLCEval([x \in 1..3 |-> Some({0, 1}, 0, 3)]),
      exp |-> TLCEval(R(Exps)), dataset |-> TLCEval(R({"tspwplib", "londonaq"}))]
=============================================================================
