------------------------------ MODULE GenLabels ------------------------------
(* Instances with renamed twins: another labelling in the same order, vertices
   without edges, and another order of the same edges.                      *)
EXTENDS GenBase
MyOpts(h) ==
  LET gap == TLCEval([v \in 1..h.n |-> R(1..9)]) IN
  [step |-> TLCEval(R({1, 1, 2})), depth |-> TLCEval(R({2, 2, 3})), csp |-> TLCEval(Coin(1, 2)),
   gap |-> gap, niso |-> TLCEval(R(0..3)), isoprize |-> TLCEval([j \in 1..3 |-> R(0..9)]), isofirst |-> TLCEval(Coin(1, 2)),
   perm |-> TLCEval(Shuffle(1..Len(h.edges))), warm |-> TLCEval(Coin(1, 2)),
   cc |-> TLCEval(Coin(1, 2)), strat |-> TLCEval(R(0..3))]
=============================================================================
