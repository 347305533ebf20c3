------------------------------- MODULE GenWarm -------------------------------
(* Instances with a closed walk to start from: a feasible tour, one below the
   quota, one that misses the root, or two cycles at once.                    *)
EXTENDS GenModel
Opt2(h) == [heur |-> TLCEval(Heur(h)), simple |-> TLCEval(Coin(1, 2))]
=============================================================================
