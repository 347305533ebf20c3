-------------------------------- MODULE Ring --------------------------------
(* The optimum of a ring of gadgets (see GenRing): a tour is built edge by edge,
   but what it has visited is forgotten when it leaves a gadget for good, so the
   states are few: the gadget, the vertices visited in it, the vertex reached,
   the prize collected (no more than the quota counts) and the cost so far.     *)
EXTENDS Recs

VARIABLES i, j, cur, vis, prize, cost, st
vars == <<i, j, cur, vis, prize, cost, st>>

Res(k) == Recs[k].res
Seg(k, x) == Rng(Recs[k].seg[x])
NS(k) == Len(Recs[k].seg)
Claimed(k) == IF Has(Recs[k], "err") THEN "error" ELSE IF Len(Res(k)) = 0 THEN "none" ELSE "tour"
Inf == 2000000000
MyBound(k) == IF Claimed(k) = "tour" THEN (IF IsEdgeTour(k, Res(k), Recs[k].root) THEN EdgesCost(k, Res(k)) ELSE 0)
              ELSE IF Claimed(k) = "none" THEN Inf ELSE 0
Capped(k, p) == IF p > Recs[k].quota THEN Recs[k].quota ELSE p
\* the record is such a ring: every edge within a gadget, gadgets share corners only
IsRing(k) ==
  /\ NS(k) >= 3
  /\ \A e \in DOMAIN Recs[k].edges : \E x \in 1..NS(k) : {Recs[k].edges[e][1], Recs[k].edges[e][2]} \subseteq Seg(k, x)
  /\ \A x \in 1..NS(k) : Recs[k].seg[x][2] = Recs[k].seg[(x % NS(k)) + 1][1]
  /\ \A x \in 1..NS(k), y \in 1..NS(k) : x < y =>
        Seg(k, x) \cap Seg(k, y) = (IF y = x + 1 THEN {Recs[k].seg[x][2]} ELSE {}) \cup (IF x = 1 /\ y = NS(k) THEN {Recs[k].root} ELSE {})
  /\ Recs[k].seg[1][1] = Recs[k].root

Init == /\ i \in 1..NR /\ st = "claim" /\ j = 0 /\ cur = Recs[i].root /\ vis = {Recs[i].root}
        /\ prize = Capped(i, Prize(i, Recs[i].root)) /\ cost = 0
CheckClaim ==
  /\ st = "claim"
  /\ CASE ~IsRing(i) -> Assert(FALSE, "not a ring")
       [] Claimed(i) = "error" -> Bad(i, "the solver failed: " \o Recs[i].err)
       [] Has(Recs[i], "status") /\ Recs[i].status \notin {"optimal", "infeasible"} -> Bad(i, "the solver gave up: status " \o Recs[i].status)
       [] Claimed(i) = "none" -> Seen(i)
       [] OTHER ->
            IF ~IsEdgeTour(i, Res(i), Recs[i].root) THEN Bad(i, "the answer is not a simple tour through the root over edges of the graph")
            ELSE IF PrizeOf(i, EdgeVerts(Res(i))) < Recs[i].quota THEN Bad(i, "the answer does not collect the quota")
            ELSE Seen(i)
  \* round the ring, or within one of the gadgets at the root
  /\ \/ st' = "round" /\ j' = 1
     \/ st' = "local" /\ j' \in {1, NS(i)}
  /\ UNCHANGED <<i, cur, vis, prize, cost>>
\* one more vertex of the gadget
To(v) == /\ IsEdge(i, cur, v) /\ cost + Cost(i, cur, v) < MyBound(i)
         /\ cost' = cost + Cost(i, cur, v) /\ cur' = v
         /\ UNCHANGED i
Inner == /\ st \in {"round", "local"}
         /\ \E v \in Seg(i, j) \ vis : To(v) /\ vis' = vis \cup {v} /\ prize' = Capped(i, prize + Prize(i, v))
                /\ (st = "round" => v # Recs[i].seg[j][2]) /\ UNCHANGED <<j, st>>
\* over the corner into the next gadget; behind the last one is the root
Corner == /\ st = "round" /\ j < NS(i)
          /\ To(Recs[i].seg[j][2]) /\ prize' = Capped(i, prize + Prize(i, Recs[i].seg[j][2]))
          /\ vis' = {Recs[i].seg[j][2]} /\ j' = j + 1 /\ st' = st
Last == /\ st = "round" /\ j = NS(i)
        /\ To(Recs[i].root) /\ st' = "closed" /\ UNCHANGED <<vis, prize, j>>
Close == /\ st = "local" /\ Cardinality(vis) >= 3
         /\ To(Recs[i].root) /\ st' = "closed" /\ UNCHANGED <<vis, prize, j>>
Next == CheckClaim \/ Inner \/ Corner \/ Last \/ Close

Optimal == ~(st = "closed" /\ prize >= Recs[i].quota /\ cost < MyBound(i))
Report == Optimal \/ Bad(i, IF Claimed(i) = "none" THEN "answered that no tour exists, but there is one"
                            ELSE "a cheaper feasible tour exists")
=============================================================================
