-------------------------------- MODULE Exact --------------------------------
(* Conformance of the exact solver: the tour it returned is a feasible tour of
   the instance, no behaviour of the problem specification reaches a cheaper
   feasible tour, and it answers "no tour" only if none is reachable.          *)
EXTENDS PCTSP

Res(k) == Recs[k].res
Claimed(k) == IF Has(Recs[k], "err") THEN "error"
              ELSE IF Len(Res(k)) = 0 THEN "none" ELSE "tour"
MyBound(k) == IF Claimed(k) = "tour" THEN
                 (IF IsEdgeTour(k, Res(k), Recs[k].root) THEN EdgesCost(k, Res(k)) ELSE 0)
              ELSE IF Claimed(k) = "none" THEN Inf ELSE 0

Init == \E k \in 1..NR : Start(k) /\ st = "claim"

CheckClaim ==
  /\ st = "claim"
  /\ CASE Claimed(i) = "error" -> Bad(i, "the solver failed: " \o Recs[i].err)
       [] Has(Recs[i], "status") /\ Recs[i].status \notin {"optimal", "infeasible"} -> Bad(i, "the solver gave up: status " \o Recs[i].status)
       [] Claimed(i) = "none" -> Seen(i)
       [] OTHER ->
            IF ~IsEdgeTour(i, Res(i), Recs[i].root) THEN Bad(i, "the answer is not a simple tour through the root over edges of the graph")
            ELSE IF PrizeOf(i, EdgeVerts(Res(i))) < Recs[i].quota THEN Bad(i, "the answer does not collect the quota")
            ELSE Seen(i)
  /\ st' = "build"
  /\ UNCHANGED <<i, vis, cur, cost>>

Next == CheckClaim \/ Build

Optimal == ~(Feasible /\ cost < MyBound(i))
Report == Optimal \/ Bad(i, IF Claimed(i) = "none" THEN "answered that no tour exists, but there is one"
                            ELSE "a cheaper feasible tour exists")
=============================================================================
