------------------------------- MODULE GenCli -------------------------------
(* Histories of commands on two data sets and three experiments.             *)
EXTENDS GenBase
CONSTANT NOPS
Algs == {"suurballes_heuristic", "suurballes_heuristic", "bfs_extension_collapse", "suurballes_extension_collapse", "suurballes_path_extension_collapse", "solve_pctsp"}
AllAlgs == Algs \cup {"disjoint_tours_relaxation", "extension", "bfs_path_extension_collapse"}
SeedVial(h) == LET tot == SumN(h.prize) IN
  [alg |-> TLCEval(R(Algs)), quota |-> TLCEval(IF Coin(1, 6) THEN tot + 5 ELSE R(0..tot)),
   root |-> TLCEval(CASE Coin(1, 6) -> h.n + 9 [] OTHER -> R(0..(h.n - 1)))]
Lst(n) == TLCEval([y \in 1..R(0..n) |-> R(1..n)])
Slot(d, e) == [d |-> d, e |-> e]
\* mostly the second experiment of one of the data sets: the one that is set up from the seed vials
GenOp(h, nv, fav) ==
  LET o == TLCEval(R(1..26)) d == TLCEval(IF Coin(3, 4) THEN fav ELSE R(1..2)) e == TLCEval(IF Coin(1, 5) THEN R(1..3) ELSE 2) x == TLCEval(R(0..(nv + 1)))
      tot == SumN(h.prize) base == Slot(d, e) IN
  CASE o \in 1..2 -> [op |-> "setup", d |-> d, e |-> TLCEval(IF Coin(3, 4) THEN 1 ELSE R(1..5))]
    [] o = 3 -> [op |-> "lab", d |-> d, e |-> TLCEval(IF Coin(5, 6) THEN 1 ELSE R(4..5))]
    [] o \in 4..7 -> base @@ [op |-> "batch", start |-> x, size |-> TLCEval(R(0..(nv + 1))), only |-> TLCEval(Coin(2, 5))]
    [] o = 8 -> base @@ [op |-> "nbatches", size |-> TLCEval(R(-1..(nv + 1)))]
    [] o \in 9..11 -> base @@ [op |-> "slurm", size |-> TLCEval(R(1..(nv + 1))), only |-> TLCEval(Coin(1, 3)), over |-> TLCEval(Coin(1, 2)),
                            limit |-> TLCEval(R({1, 60, 3599, 3600, 3601, 14400, 36000, 180000}))]
    [] o \in 12..14 -> base @@ [op |-> "missing"]
    [] o = 15 -> base @@ [op |-> "nmissing"]
    [] o = 16 -> base @@ [op |-> "infeasible"]
    [] o = 17 -> base @@ [op |-> "vial", v |-> x]
    [] o = 18 -> [op |-> "zip", d |-> d, es |-> TLCEval(IF Coin(1, 3) THEN <<1, 2>> ELSE <<e>>)]
    [] o = 19 -> [op |-> "unzip", d |-> d, es |-> TLCEval(IF Coin(1, 3) THEN <<2, 1>> ELSE <<e>>)]
    [] o = 20 -> base @@ [op |-> "wipe"]
    [] o = 21 -> base @@ [op |-> "tear", v |-> x]
    [] o = 22 -> base @@ [op |-> "delete", v |-> x]
    [] o \in 23..24 -> [op |-> "seed", d |-> d, e |-> 2, l |-> TLCEval(IF Coin(1, 2) THEN [y \in 1..nv |-> y] ELSE Lst(nv))]
    [] OTHER -> [op |-> "one", d |-> d, e |-> 3, def |-> TLCEval(Coin(1, 4)), alg |-> TLCEval(R(AllAlgs)), quota |-> TLCEval(R(0..tot)),
                 alpha |-> TLCEval(R({0, 5, 50, 99, 100})), csp |-> TLCEval(R({0, 1})), dp |-> TLCEval(R({0, 1})), sp |-> TLCEval(R({0, 1})), leaves |-> TLCEval(R({0, 1})),
                 cf |-> TLCEval(R({"EUC_2D", "MST", "UNIFORM_RANDOM"})), heur |-> TLCEval(IF Coin(1, 2) THEN "" ELSE R(AllAlgs \ {"solve_pctsp", "disjoint_tours_relaxation", "extension"})),
                 kappa |-> TLCEval(R({-999, 2, 5})), depth |-> TLCEval(R({1, 2, 5})), step |-> TLCEval(R({1, 3})), bmax |-> TLCEval(R({-1, 0, 2})), tail |-> TLCEval(R({-1, 2, 7})),
                 gap |-> TLCEval(R({0, 2, 50})), limit |-> TLCEval(R({20, 600}))]
MyOpts(h) ==
  LET nv == TLCEval(R(1..5)) fav == TLCEval(R(1..2)) IN
  [fav |-> fav, vials |-> TLCEval([y \in 1..nv |-> SeedVial(h)]),
   ops |-> TLCEval(<<[op |-> "seed", d |-> fav, e |-> 2, l |-> [y \in 1..nv |-> y]]>> \o [y \in 1..R(2..NOPS) |-> GenOp(h, nv, fav)]),
   xy |-> TLCEval([y \in 1..h.n |-> <<R(0..15), R(0..15)>>])]
=============================================================================
