------------------------------- MODULE GenLab -------------------------------
(* A laboratory, its vials and a history of what is done with it: runs of
   everything, of batches and of chosen vials, runs that are interrupted, result
   files torn or deleted, experiments written and read back.                 *)
EXTENDS GenBase
CONSTANT NOPS
Kinds == {"good", "badq", "noroot", "cutoff", "relax", "nofile"}
GenVial(h, calm) ==
  LET tot == SumN(h.prize) kind == TLCEval(CASE Coin(3, 5) -> "good" [] calm -> R(Kinds \ {"nofile"}) [] OTHER -> R(Kinds)) IN
  [kind |-> kind,
   data |-> TLCEval(IF Coin(1, 4) THEN "tspwplib" ELSE "londonaq"),
   root |-> TLCEval(IF Coin(2, 3) THEN h.root ELSE R(0..(h.n - 1))),
   quota |-> TLCEval(IF kind = "badq" THEN tot + R(1..9) ELSE IF Coin(1, 2) THEN h.quota ELSE R(0..tot)),
   kappa |-> TLCEval(R({0, 0, 0, 1, 2, 3})),
   cf |-> TLCEval(R({"EXPLICIT", "EXPLICIT", "MST", "SEMI_MST", "UNIFORM_RANDOM"})),
   pre |-> TLCEval([j \in 1..3 |-> Coin(1, 3)]),
   cut |-> TLCEval(R({1, 2}))]
GenOp(nv) ==
  LET e == TLCEval(IF Coin(4, 5) THEN 1 ELSE 2) v == TLCEval(R(1..(nv + 1)))
      L == TLCEval([j \in 1..R(0..4) |-> R(1..nv)]) o == TLCEval(R(1..18)) IN
  CASE nv = 0 -> [op |-> R({"run", "batch", "missing", "infeasible", "results"}), e |-> e, start |-> R(0..2), size |-> R(0..2), only |-> Coin(1, 2)]
    [] o \in 1..2 -> [op |-> "run", e |-> e]
    [] o \in 3..5 -> [op |-> "batch", e |-> e, start |-> R(0..(nv + 1)), size |-> R(0..(nv + 1)), only |-> Coin(1, 2)]
    [] o = 6 -> [op |-> "list", e |-> e, list |-> L]
    [] o \in 7..8 -> [op |-> "crash", e |-> e, at |-> R(1..(4 * nv + 1))]
    [] o \in 9..10 -> [op |-> "tear", e |-> e, v |-> R(1..nv), cut |-> R(0..19)]
    [] o = 11 -> [op |-> "delete", e |-> e, v |-> R(1..nv)]
    [] o = 12 -> [op |-> "missing", e |-> e]
    [] o = 13 -> [op |-> "infeasible", e |-> e]
    [] o = 14 -> [op |-> "results", e |-> e]
    [] o = 15 -> [op |-> "wexp", e |-> e, m |-> Coin(1, 2), list |-> L]
    [] o = 16 -> [op |-> "rexp", e |-> e, m |-> Coin(1, 2)]
    [] o = 17 -> [op |-> "wres", e |-> e]
    [] OTHER -> [op |-> "sweep", e |-> e, size |-> R(1..3)]
MyOpts(h) ==
  LET nv == TLCEval(R({0, 1, 2, 2, 3, 3, 3, 4, 5})) calm == TLCEval(Coin(3, 4)) IN
  [vials |-> TLCEval([j \in 1..nv |-> GenVial(h, calm)]), ops |-> TLCEval([j \in 1..R(2..NOPS) |-> GenOp(nv)]),
   xy |-> TLCEval([j \in 1..h.n |-> <<R(0..15), R(0..15)>>])]
=============================================================================
