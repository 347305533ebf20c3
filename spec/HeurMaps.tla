------------------------------ MODULE HeurMaps ------------------------------
(* The heuristics that build a tour from a map of vertex-disjoint path pairs.
   Record: pm (entries v, p1, p2, c in map order), prize, root, quota, and the
   answers suur, init, rnd (one per seed: [err, tour]), pair ([err, tour]).    *)
EXTENDS Recs

VARIABLES i, part
R(k) == Recs[k]
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
TourOf(p1, p2) == p1 \o Tail(Rev(p2))
Simple(t) == Cardinality(Rng(t)) = Len(t) - 1
E(k) == R(k).pm
T(k, j) == TourOf(E(k)[j].p1, E(k)[j].p2)
Eligible(k) == {j \in DOMAIN E(k) : Simple(T(k, j)) /\ PrizeOf(k, Rng(T(k, j))) >= R(k).quota}
SimpleOnes(k) == {j \in DOMAIN E(k) : Simple(T(k, j))}
\* a pair can be closed into a tour: both paths have an edge and share their ends
Closes(p, q) == /\ Len(p) >= 2 /\ Len(q) >= 2 /\ p[1] = q[1] /\ p[Len(p)] = q[Len(q)]

JSuur(k) ==
  LET t == R(k).suur S == Eligible(k) IN
  IF S = {} THEN (IF t = <<>> THEN "" ELSE "a tour was returned although no pair forms a simple prize-feasible tour")
  ELSE IF \E j \in S : T(k, j) = t /\ \A l \in S : E(k)[j].c <= E(k)[l].c THEN ""
  ELSE "not the least-cost simple prize-feasible tour of the pairs"
JInit(k) ==
  LET t == R(k).init S == Eligible(k) M == SimpleOnes(k) pz(j) == PrizeOf(k, Rng(T(k, j))) IN
  IF S # {} THEN
    IF \E j \in S : T(k, j) = t /\ \A l \in S : E(k)[j].c <= E(k)[l].c THEN ""
    ELSE "not the least-cost simple prize-feasible tour of the pairs (initialisation)"
  ELSE IF \E j \in M : T(k, j) = t /\ \A l \in M : pz(l) <= pz(j) THEN ""
  ELSE IF t = <<>> /\ \A l \in M : pz(l) = 0 THEN ""
  ELSE "not a simple tour of greatest prize among the pairs"
RndOk(k) == {j \in DOMAIN E(k) : E(k)[j].v # R(k).root /\ Len(E(k)[j].p1) + Len(E(k)[j].p2) >= 5}
JRnd(k) ==
  LET S == RndOk(k) IN
  IF \E x \in Rng(R(k).rnd) : x.err \notin {"", "ValueError"} THEN "the random tour raised something other than its documented error"
  ELSE IF S = {} /\ \E x \in Rng(R(k).rnd) : x.err = "" THEN "a random tour although no pair forms a cycle"
  ELSE IF S # {} /\ \E x \in Rng(R(k).rnd) : x.err # "" THEN "no random tour although some pair forms a cycle"
  ELSE IF \E x \in Rng(R(k).rnd) : x.err = "" /\ \A j \in S : T(k, j) # x.tour THEN "the random tour is not the cycle of one of the pairs"
  ELSE IF \E x \in Rng(R(k).rnd) : x.err2 # x.err \/ x.tour2 # x.tour THEN "the same seed gave two different random tours"
  ELSE ""
JPair(k) ==
  LET x == R(k).pair IN
  IF ~Closes(R(k).q1, R(k).q2) THEN (IF x.err = "ValueError" THEN "" ELSE "a pair that cannot be closed was not rejected")
  ELSE IF x.err # "" THEN "a pair of paths with common ends was rejected"
  ELSE IF x.tour # TourOf(R(k).q1, R(k).q2) THEN "the tour is not the first path followed by the reversed second path"
  ELSE IF ~x.same THEN "closing the pair changed the given paths" ELSE ""

Init == i \in 1..NR /\ part = 0
Next == part = 0 /\ UNCHANGED i /\ part' \in 1..4
Report ==
  IF part = 0 THEN IF Has(R(i), "err") THEN Bad(i, "raised " \o R(i).err) ELSE Seen(i)
  ELSE Has(R(i), "err") \/
       LET j == CASE part = 1 -> JSuur(i) [] part = 2 -> JInit(i) [] part = 3 -> JRnd(i) [] OTHER -> JPair(i)
       IN j = "" \/ Bad(i, j)
=============================================================================
