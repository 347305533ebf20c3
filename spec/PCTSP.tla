-------------------------------- MODULE PCTSP --------------------------------
(* The prize-collecting travelling salesperson problem as a transition system:
   a tour is built from the root one edge at a time (vis: the vertices visited,
   cur: where it stands) and closed when it returns to the root.  The closed
   states that meet the quota are exactly the feasible tours of the instance;
   the optimum is the least cost over those states.                           *)
EXTENDS Recs

VARIABLES i, vis, cur, cost, st
vars == <<i, vis, cur, cost, st>>

Inf == 2000000000
(* partial tours that cost this much or more are not worth extending (costs are
   non-negative): a module that only wants cheaper tours than a known one
   supplies that tour's cost                                                  *)
CONSTANT Bound(_)

TypeOK == /\ i \in 1..NR /\ st \in {"claim", "build", "closed"}
          /\ vis \subseteq Verts(i) /\ cur \in vis /\ cost \in Nat

Start(k) == /\ i = k
            /\ vis = {Recs[k].root}
            /\ cur = Recs[k].root
            /\ cost = 0

Extend(w) ==
  /\ st = "build"
  /\ IsEdge(i, cur, w)
  /\ w \notin vis
  /\ cost + Cost(i, cur, w) < Bound(i)
  /\ vis' = vis \cup {w}
  /\ cur' = w
  /\ cost' = cost + Cost(i, cur, w)
  /\ UNCHANGED <<i, st>>

Close ==
  /\ st = "build"
  /\ Cardinality(vis) >= 3
  /\ IsEdge(i, cur, Recs[i].root)
  /\ cur' = Recs[i].root
  /\ cost' = cost + Cost(i, cur, Recs[i].root)
  /\ st' = "closed"
  /\ UNCHANGED <<i, vis>>

Build == (\E w \in Adj(i, cur) : Extend(w)) \/ Close

Feasible == st = "closed" /\ PrizeOf(i, vis) >= Recs[i].quota
=============================================================================
