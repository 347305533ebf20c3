------------------------------ MODULE GenCover ------------------------------
(* Instances for the cost cover rule: the costs of paths to every vertex (given,
   or to be computed by the code) and a sequence of costs of best tours.      *)
EXTENDS GenModel
Opt3(h) == [mode |-> R({"sp", "sp", "dps"}),
            dps |-> TLCEval([v \in 1..h.n |-> R(0..(4 * CMAX))]),
            bounds |-> TLCEval([j \in 1..R(1..3) |-> R(0..(4 * CMAX))])]
=============================================================================
