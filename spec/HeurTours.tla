------------------------------ MODULE HeurTours ------------------------------
(* find_cycle_from_bfs against the tour machine: it answers a tour through the
   root whenever one is reachable, and nothing otherwise.  The random tour of a
   complete graph against its own machine: add any unvisited vertex until the
   quota is met and three vertices are visited, then return to the root.
   Record: bfs (vertex sequence), rnd (tours with a repeatability flag).       *)
EXTENDS PCTSP

R(k) == Recs[k]
MyBound(k) == IF Has(R(k), "err") \/ R(k).bfs # <<>> THEN 0 ELSE Inf
NoCost == <<i, vis, cur, st>>

(* the random-tour machine replayed along the recorded tour *)
RECURSIVE Step(_, _, _, _)
Step(k, t, j, S) ==
  LET done == Cardinality(S) = R(k).n \/ (PrizeOf(k, S) >= R(k).quota /\ Cardinality(S) >= 3) IN
  IF j > Len(t) THEN FALSE
  ELSE IF done THEN j = Len(t) /\ t[j] = R(k).root
  ELSE t[j] \in Verts(k) \ S /\ Step(k, t, j + 1, S \cup {t[j]})
RandomTour(k, t) == Len(t) >= 1 /\ t[1] = R(k).root /\ Step(k, t, 2, {t[1]})

Init == \E k \in 1..NR : Start(k) /\ st = "claim"
CheckClaim ==
  /\ st = "claim" /\ st' = "build" /\ UNCHANGED <<i, vis, cur, cost>>
  /\ IF Has(R(i), "err") THEN Bad(i, "raised " \o R(i).err)
     ELSE IF R(i).bfs # <<>> /\ ~(IsClosedTour(i, R(i).bfs) /\ R(i).bfs[1] = R(i).root)
          THEN Bad(i, "the cycle found by breadth-first search is not a simple cycle through the root")
     ELSE IF \E x \in Rng(R(i).rnd) : ~RandomTour(i, x.t) THEN Bad(i, "the random tour is not a behaviour of the random-tour machine")
     ELSE IF \E x \in Rng(R(i).rnd) : ~x.same THEN Bad(i, "the same seed gave two different random tours")
     ELSE Seen(i)
Next == CheckClaim \/ Build
Report == (st = "closed" /\ ~Has(R(i), "err")) =>
            (R(i).bfs # <<>> \/ Bad(i, "no cycle found although the root is on a simple cycle"))
=============================================================================
