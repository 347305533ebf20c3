-------------------------------- MODULE Warm --------------------------------
(* The start of the solver as a small machine: it is handed a tour, and when it
   looks at its first relaxation it knows exactly the feasible tour it was
   handed (edges, vertices and cost), or nothing when that is not a feasible
   tour; afterwards its best solution can only get cheaper.                    *)
EXTENDS Recs
VARIABLES i, ph, known      \* known: cost of the best tour known, -1 for none

R(k) == Recs[k]
Pairs(t) == [j \in 1..(IF Len(t) = 0 THEN 0 ELSE Len(t) - 1) |-> <<t[j], t[j + 1]>>]
Handed(k) == Pairs(R(k).heur)
Fits(k) == IsEdgeTour(k, Handed(k), R(k).root) /\ PrizeOf(k, EdgeVerts(Handed(k))) >= R(k).quota
Links(on) == {Norm(e) : e \in {e \in Rng(on) : e[1] # e[2]}}
Loops(on) == {e[1] : e \in {e \in Rng(on) : e[1] = e[2]}}
SameTour(k, on) == Links(on) = {Norm(e) : e \in Rng(Handed(k))} /\ Loops(on) = EdgeVerts(Handed(k))

Init == i \in 1..NR /\ ph = "handed" /\ known = -1
\* before the first relaxation
FirstLook ==
  /\ ph = "handed" /\ ph' = "looked" /\ UNCHANGED i
  /\ known' = IF Has(R(i), "err") \/ ~Fits(i) THEN -1 ELSE EdgesCost(i, Handed(i))
  /\ IF Has(R(i), "err") THEN Bad(i, "raised " \o R(i).err)
     ELSE IF ~R(i).started THEN TRUE       \* it ended before it looked at any relaxation
     ELSE IF ~Fits(i) THEN (IF R(i).sols = <<>> THEN TRUE ELSE Bad(i, "starts with a solution although the tour it was handed is not feasible"))
     ELSE IF Len(R(i).sols) # 1 THEN Bad(i, "does not start from the feasible tour it was handed")
     ELSE IF ~SameTour(i, R(i).sols[1].on) THEN Bad(i, "starts from another solution than the tour it was handed")
     ELSE IF R(i).sols[1].obj # EdgesCost(i, Handed(i)) THEN Bad(i, "the cost of the tour it was handed is wrong")
     ELSE TRUE
\* at the end
LastLook ==
  /\ ph = "looked" /\ ph' = "done" /\ UNCHANGED <<i, known>>
  /\ IF Has(R(i), "err") THEN TRUE
     ELSE IF known >= 0 /\ ~R(i).has THEN Bad(i, "lost the tour it was handed")
     ELSE IF known >= 0 /\ R(i).best > known THEN Bad(i, "the best solution costs more than the tour it was handed")
     ELSE Seen(i)
Next == FirstLook \/ LastLook
=============================================================================
