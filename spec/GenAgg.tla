------------------------------- MODULE GenAgg -------------------------------
(* Table files of a laboratory, as experiments leave them, for the summary tables
   that are made from them.  Bounds are divisors of 2520, so that gaps and means
   are whole in suitable units; -1 stands for the solver's infinity, -999 for an
   absent value.                                                              *)
EXTENDS GenBase
No == -999
Lb == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 18, 20}
Fns == {"EUC_2D", "EUC_2D", "MST", "MST", "SEMI_MST"}
Heurs == {"suurballes_heuristic", "suurballes_path_extension_collapse", "bfs_extension_collapse", "bfs_path_extension_collapse", "suurballes_extension_collapse"}
\* status, bounds and feasibility of a run of the solver
Run(h) ==
  LET st == TLCEval(R({11, 11, 12, 5})) lb == TLCEval(R(Lb)) d == TLCEval(R({0, 0, 1, 2, 3, 7, 20})) IN
  CASE st = 12 -> [status |-> 12, lb |-> -1, ub |-> -1, feasible |-> 0]
    [] st = 11 -> [status |-> 11, lb |-> lb, ub |-> lb, feasible |-> 1]
    [] OTHER -> TLCEval(IF Coin(1, 4) THEN [status |-> 5, lb |-> lb, ub |-> -1, feasible |-> 0] ELSE [status |-> 5, lb |-> lb, ub |-> lb + d, feasible |-> R({0, 1, 1})])
Tail0(h) == [bdepth |-> TLCEval(R({-1, 1})), rule |-> TLCEval(R({0, 1, 2, 4})), thr |-> TLCEval(R({0, 10})), its |-> TLCEval(R({-1, 5})),
             nodes |-> TLCEval(R({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12})), dt |-> TLCEval(R(0..25)), mm |-> TLCEval(R(0..25)), duration |-> TLCEval(R(0..5000))] @@ Run(h)
Inst(h, ds, first) ==
  [graph |-> TLCEval(IF ds = "tspwplib" THEN R({"att48", "eil51"}) ELSE IF first THEN "laqkxA" ELSE R({"laqbbA", "laqkxA", "laqtinyA"})),
   fn |-> TLCEval(IF ds = "londonaq" THEN "" ELSE IF first THEN "MST" ELSE R(Fns)), quota |-> TLCEval(R({3, 5})), root |-> TLCEval(R({0, 1})), alpha |-> TLCEval(R({5, 10})),
   generation |-> TLCEval(IF ds = "londonaq" THEN "" ELSE R({"gen1", "gen2"})), kappa |-> TLCEval(IF ds = "londonaq" THEN No ELSE R({5, 10}))]
Cover0(h, ds, first, both) ==
  LET c == TLCEval(IF both THEN <<1, 1>> ELSE R({<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 0>>})) IN
  [djp |-> c[1], sp |-> c[2], nd |-> TLCEval(IF c[1] = 1 THEN R(0..40) ELSE 0), ns |-> TLCEval(IF c[2] = 1 THEN R(0..40) ELSE 0), cd |-> TLCEval(R(0..9)), cs |-> TLCEval(R(0..9)),
   duration |-> TLCEval(R(0..5000))] @@ Run(h) @@ Inst(h, ds, first)
Heur0(h, ds, first, c) ==
  LET f == TLCEval(R({0, 1, 1, 1})) lb == TLCEval(R(Lb)) IN
  [algorithm |-> TLCEval(IF first THEN "suurballes_heuristic" ELSE R(Heurs)), feasible |-> f, objective |-> TLCEval(IF f = 0 THEN No ELSE IF Coin(1, 2) THEN lb + R({0, 1, 5}) ELSE R(1..40)),
   pdl |-> TLCEval(R({No, 3})), step |-> TLCEval(R({No, 10})), collapse |-> TLCEval(R({0, 1})), duration |-> TLCEval(R(0..5000))]
  @@ (IF first \/ Coin(1, 6) THEN Inst(h, ds, first) ELSE [y \in {"graph", "fn", "quota", "root", "alpha", "generation", "kappa"} |-> c[y]])
Data0(h, ds, k) ==
  [graph |-> TLCEval(IF ds = "londonaq" THEN <<"laqbbA", "laqidA", "laqkxA", "laqwsA", "laqtinyA">>[k] ELSE R({"att48", "eil51"})), fn |-> TLCEval(IF ds = "londonaq" THEN "" ELSE R({"EUC_2D", "MST"})),
   kappa |-> TLCEval(IF ds = "londonaq" THEN No ELSE R({5, 10})), counts |-> TLCEval([y \in 1..4 |-> R(1..500)]), ratios |-> TLCEval([y \in 1..3 |-> R(-8..16)])]
MyOpts(h) ==
  LET ds == TLCEval(R({"tspwplib", "londonaq"})) both == TLCEval(Coin(1, 12))
      cover == TLCEval([y \in 1..R({1, 2, 4, 8, 10}) |-> Cover0(h, ds, y = 1, both /\ y = 2)]) IN
  [dataset |-> ds, tail |-> TLCEval([y \in 1..R({1, 2, 5, 10}) |-> Tail0(h)]), cover |-> cover,
   heur |-> TLCEval([y \in 1..R({1, 2, 4, 8, 10}) |-> Heur0(h, ds, y = 1, cover[R(1..Len(cover))])]),
   data |-> TLCEval([y \in 1..(IF ds = "londonaq" THEN R(1..5) ELSE R({1, 4, 8, 10})) |-> Data0(h, ds, y)]),
   byalpha |-> TLCEval(ds = "londonaq" /\ Coin(1, 2)),
   have |-> [tail |-> Coin(2, 3), cover |-> Coin(4, 5), heur |-> Coin(4, 5), data |-> Coin(2, 3)], newdir |-> Coin(1, 2)]
=============================================================================
