------------------------------ MODULE GenHeur ------------------------------
(* Instances with a start tour and the parameters of the tour heuristics.   *)
EXTENDS GenBase
MyOpts(h) == [step |-> TLCEval(R({1, 1, 1, 2, 3})), depth |-> TLCEval(R({2, 2, 2, 3, 3, 4, h.n, 1})),
              csp |-> TLCEval(Coin(1, 2)), hq |-> TLCEval(R({0, 1, 1, 1, 1, 2}))]
=============================================================================
