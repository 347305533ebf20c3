------------------------------ MODULE GenSolve ------------------------------
(* Instances with every option of a whole run; dps: for every vertex a number
   to use as the cost of its disjoint paths (0: no claim); search: settings of
   the search itself (lp: where relaxations are solved: 0 everywhere, 1 nowhere,
   2 at the root, 3 at every other depth).                                     *)
EXTENDS GenModel
Opt4(h) == [sec_dt |-> Coin(3, 4), sec_mf |-> h.n > 15 \/ Coin(3, 4), cc_dp |-> Coin(1, 2), cc_sp |-> Coin(1, 2),
            cyc |-> Coin(1, 2), strat |-> R(0..4), depth |-> R({-1, 0, 1, 3}),
            tail |-> R({-1, -1, 1, 2, 5}), thr |-> R({0, 10, 500}), freq |-> IF h.n > 15 THEN 1 ELSE R({1, 1, 1, 2, 0, 5}),
            simple |-> Coin(3, 4), dps |-> [v \in 1..h.n |-> 0],
            heur |-> IF Coin(1, 2) THEN h.tour ELSE <<>>,
            search |-> IF Coin(1, 2) THEN [lp |-> 0, seed |-> 0, perm |-> FALSE]
                       ELSE [lp |-> IF Len(h.edges) > 16 THEN 0 ELSE R({0, 0, 1, 2, 3}), seed |-> R(0..9), perm |-> Coin(2, 3)]]
=============================================================================
