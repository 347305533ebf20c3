------------------------------ MODULE Disjoint ------------------------------
(* The vertex-disjoint path maps of an undirected graph against the tours of
   the problem machine: a pair of vertex-disjoint root-v paths is a tour through
   the root that visits v, so the cost of v is the least cost of such a tour and
   v has an entry exactly if one is reachable.
   m[v+1] = [has, cost, p1, p2] for every vertex v.                            *)
EXTENDS PCTSP

E(k, v) == Recs[k].m[v + 1]
Others(k) == Verts(k) \ {Recs[k].root}
MyBound(k) == IF Has(Recs[k], "err") THEN 0
              ELSE IF \E v \in Others(k) : ~E(k, v).has THEN Inf
              ELSE LET S == {E(k, v).cost : v \in Others(k)} IN
                   IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

Init == \E k \in 1..NR : Start(k) /\ st = "claim"

GoodPath(k, p, v) == /\ Len(p) >= 2 /\ p[1] = Recs[k].root /\ p[Len(p)] = v
                     /\ \A j \in DOMAIN p : p[j] \in Verts(k)
                     /\ NoRepeat(p) /\ IsWalk(k, p)
JudgeV(k, v) ==
  LET e == E(k, v) IN
  IF ~e.has THEN ""
  ELSE IF ~(GoodPath(k, e.p1, v) /\ GoodPath(k, e.p2, v)) THEN "a path of the map is not a simple root-vertex path of the graph"
  ELSE IF (Rng(e.p1) \cap Rng(e.p2)) # {Recs[k].root, v} THEN "the two paths of the map share an inner vertex"
  ELSE IF Len(e.p1) = 2 /\ Len(e.p2) = 2 THEN "the two paths of the map are the same edge"
  ELSE IF WalkCost(k, e.p1) + WalkCost(k, e.p2) # e.cost THEN "the mapped cost is not the cost of the mapped paths"
  ELSE ""

CheckClaim ==
  /\ st = "claim"
  /\ IF Has(Recs[i], "err") THEN Bad(i, "raised " \o Recs[i].err)
     ELSE LET J == {JudgeV(i, v) : v \in Others(i)} \ {""} IN
          IF J = {} THEN Seen(i) ELSE Bad(i, CHOOSE x \in J : TRUE)
  /\ st' = "build"
  /\ UNCHANGED <<i, vis, cur, cost>>

Next == CheckClaim \/ Build

Report == (st = "closed" /\ ~Has(Recs[i], "err")) =>
  \A v \in vis \ {Recs[i].root} :
     \/ (E(i, v).has /\ E(i, v).cost <= cost)
     \/ Bad(i, IF E(i, v).has THEN "a cheaper pair of vertex-disjoint paths exists"
               ELSE "a vertex with a vertex-disjoint pair of paths is missing from the map")
=============================================================================
