-------------------------------- MODULE Model --------------------------------
(* Conformance of the mathematical program: the 0/1 points it accepts are the
   feasible closed states of the problem machine and no others, each at the
   cost of its tour.  Records carry either points with the verdict of the model
   (acc), or every accepted point of a small instance (all, on).               *)
EXTENDS PCTSP

VARIABLE used       \* edges of the tour built so far

R(k) == Recs[k]
NoBound(k) == Inf
Pts(k) == IF Has(R(k), "points") THEN R(k).points ELSE <<>>
Loops(on) == {on[j][1] : j \in {j \in DOMAIN on : on[j][1] = on[j][2]}}
Links(on) == SelectSeq(on, LAMBDA e : e[1] # e[2])
\* the point is a simple cycle through the root, with exactly its vertices on and enough prize
Right(k, on) ==
  /\ IsEdgeTour(k, Links(on), R(k).root)
  /\ Loops(on) = EdgeVerts(Links(on))
  /\ PrizeOf(k, Loops(on)) >= R(k).quota
PtCost(k, on) == EdgesCost(k, Links(on))

Wrong(k) ==
  IF Has(R(k), "err") THEN "raised " \o R(k).err
  ELSE IF R(k).nvars # Len(R(k).edges) + R(k).n THEN "the model does not have one variable for every edge and every vertex"
  ELSE IF \E j \in DOMAIN Pts(k) : R(k).acc[j].ok /\ ~Right(k, Pts(k)[j].on) THEN "accepts a point that is not a prize-feasible tour through the root"
  ELSE IF \E j \in DOMAIN Pts(k) : ~R(k).acc[j].ok /\ Right(k, Pts(k)[j].on) THEN "rejects a prize-feasible tour through the root"
  ELSE IF \E j \in DOMAIN Pts(k) : R(k).acc[j].obj # PtCost(k, Pts(k)[j].on) THEN "the objective of a point is not the cost of its edges"
  ELSE IF \E j \in DOMAIN R(k).on : ~Right(k, R(k).on[j].on) THEN "accepts a point that is not a prize-feasible tour through the root"
  ELSE IF \E j \in DOMAIN R(k).on : R(k).on[j].obj # PtCost(k, R(k).on[j].on) THEN "the objective of an accepted point is not the cost of its edges"
  ELSE ""

Init == \E k \in 1..NR : Start(k) /\ st = "claim" /\ used = {}
CheckClaim ==
  /\ st = "claim" /\ UNCHANGED <<i, vis, cur, cost, used>>
  /\ st' = IF Has(R(i), "err") \/ ~R(i).all THEN "done" ELSE "build"
  /\ LET w == Wrong(i) IN IF w = "" THEN Seen(i) ELSE Bad(i, w)
Go == (\E w \in Adj(i, cur) : Extend(w) /\ used' = used \cup {Norm(<<cur, w>>)})
      \/ (Close /\ used' = used \cup {Norm(<<cur, Recs[i].root>>)})
Next == CheckClaim \/ Go
\* every feasible tour the machine reaches is among the accepted points
Report == (Feasible /\ Cardinality(used) = Cardinality(vis)) =>
   ((\E j \in DOMAIN R(i).on : {Norm(e) : e \in Rng(Links(R(i).on[j].on))} = used /\ Loops(R(i).on[j].on) = vis)
    \/ Bad(i, "a prize-feasible tour is not a solution of the model"))
=============================================================================
