-------------------------------- MODULE GenFig --------------------------------
(* Table files for the figure of the heuristics: a few instances, mostly of the
   two cost functions that are shown, and many runs on them, often with equal gaps. *)
EXTENDS GenAgg
FInst(h) == [Inst(h, "tspwplib", FALSE) EXCEPT !.fn = TLCEval(R({"EUC_2D", "MST", "EUC_2D", "MST", "SEMI_MST"})), !.quota = 3, !.generation = "gen1"]
FCover(h) == [Cover0(h, "tspwplib", FALSE, FALSE) EXCEPT !.djp = TLCEval(R({0, 1, 1, 1})), !.lb = TLCEval(R({-1, 1, 2, 2, 4, 10, 10, 20}))]
FAlgs == {"suurballes_heuristic", "bfs_extension_collapse", "bfs_extension_collapse", "bfs_path_extension_collapse", "suurballes_extension_collapse", "suurballes_path_extension_collapse"}
FHeur(h, c) ==
  LET far == TLCEval(Coin(1, 8)) b == Heur0(h, "tspwplib", FALSE, c) f == TLCEval(R({0, 1, 1, 1, 1, 1})) IN
  [n \in DOMAIN b |->
     CASE n = "algorithm" -> R(FAlgs)
       [] n = "feasible" -> f
       [] n = "objective" -> IF f = 0 THEN No ELSE (IF c.lb > 0 THEN c.lb ELSE 3) + R({0, 0, 2, 2, 5})
       [] n \in {"graph", "fn", "quota", "root", "alpha", "generation", "kappa"} -> IF far /\ n = "graph" THEN "st70" ELSE c[n]
       [] OTHER -> b[n]]
Opts5(h) ==
  LET cov == TLCEval([y \in 1..R({1, 2, 4, 6}) |-> LET p == TLCEval(FInst(h)) IN p @@ TLCEval(FCover(h))]) IN
  [dataset |-> "tspwplib", cover |-> cov, heur |-> TLCEval([y \in 1..R({1, 4, 8, 12, 16}) |-> TLCEval(FHeur(h, cov[R(1..Len(cov))]))]), newdir |-> Coin(1, 2)]
=============================================================================
