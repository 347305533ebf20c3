-------------------------------- MODULE Tours --------------------------------
(* Tours of a recorded instance and the moves the heuristics make on them.
   A tour is a sequence that starts and ends with the same vertex.            *)
EXTENDS Recs

R(k) == Recs[k]
TourPrize(k, t) == PrizeOf(k, Rng(t))
IsTour(k, t) == IsClosedTour(k, t)
Turn(t, v) == LET p == CHOOSE p \in DOMAIN t : t[p] = v /\ \A q \in DOMAIN t : t[q] = v => p <= q
              IN SubSeq(t, p, Len(t)) \o SubSeq(t, 2, p)
RECURSIVE IsSub(_, _)
IsSub(a, b) == a = <<>> \/ (b # <<>> /\ IF Head(a) = Head(b) THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b)))
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

(* ---- inserting one vertex: the unitary gain is its prize over the added cost, and only a positive one counts.
   Gains are multiplied by a common multiple of the possible added costs (at most 18, and at most 10 in the large
   instances) to stay in the integers; an insertion that costs nothing has infinite gain. *)
LG(k) == IF Recs[k].n > 10 THEN 2520 ELSE 12252240
INF == 2000000000
Added(k, u, v, w) == Cost(k, u, v) + Cost(k, v, w) - Cost(k, u, w)
GainAt(k, t, v, j) ==   \* between positions j and j+1 of the tour
  LET u == t[j] w == t[j + 1] IN
  IF ~(IsEdge(k, u, v) /\ IsEdge(k, v, w)) THEN 0
  ELSE LET d == Added(k, u, v, w) p == Prize(k, v) IN
    IF p = 0 \/ d < 0 THEN 0 ELSE IF d = 0 THEN INF ELSE p * (LG(k) \div d)
Gain(k, t, v) == Max({GainAt(k, t, v, j) : j \in 1..(Len(t) - 1)})
Outside(k, t) == Verts(k) \ Rng(t)
Insert(t, v, j) == SubSeq(t, 1, j) \o <<v>> \o SubSeq(t, j + 1, Len(t))
BestInserts(k, t) ==   \* every tour that inserts a vertex of greatest gain at a place of greatest gain
  LET g == [v \in Outside(k, t) |-> Gain(k, t, v)] IN
  IF Outside(k, t) = {} THEN {}
  ELSE LET m == Max({g[v] : v \in DOMAIN g}) IN
    IF m = 0 THEN {}
    ELSE {Insert(t, x[1], x[2]) : x \in {x \in {v \in DOMAIN g : g[v] = m} \X (1..(Len(t) - 1)) : GainAt(k, t, x[1], x[2]) = m}}
BestGain(k, t) == IF Outside(k, t) = {} THEN 0 ELSE Max({Gain(k, t, v) : v \in Outside(k, t)})
\* above the average n*b against the sum s: yes, no, or too close for floating point to say
Above(b, s, n) == IF Abs(n * b - s) <= (n * b) \div 20000 + 1 THEN {TRUE, FALSE} ELSE {n * b > s}

(* ---- replacing a path of the tour: k1 = number of steps of the tour *)
Steps(t) == Len(t) - 1
At(t, p) == t[(p % Steps(t)) + 1]
Internal(t, p, step) == [x \in 1..(step + 1) |-> At(t, p + x - 1)]
Inner(s) == Rng(SubSeq(s, 2, Len(s) - 1))
\* the root may not get lost: it is not strictly inside the replaced path
Replaceable(k, t, p, step) == R(k).root \notin Inner(Internal(t, p, step))
SeqCost(k, s) == WalkCost(k, s)
PathPrize(k, s) == PrizeOf(k, Rng(s))
Loss(k, old, new) == (2520 \div (PathPrize(k, new) - PathPrize(k, old))) * (SeqCost(k, new) - SeqCost(k, old))

(* paths with fewest edges from a to b through vertices outside the tour, as breadth-first search finds them *)
RECURSIVE Grow(_, _, _, _)
Grow(k, ps, free, d) == IF d = 0 THEN ps
  ELSE LET seen == UNION {Rng(p) : p \in ps} last(p) == p[Len(p)]
           nx == UNION {{Append(p, w) : w \in (Adj(k, last(p)) \cap free) \ seen} : p \in {p \in ps : Len(p) = Max({Len(q) : q \in ps})}}
       IN IF nx = {} THEN ps ELSE Grow(k, ps \cup nx, free, d - 1)
FewestPaths(k, a, free, d) == {p \in Grow(k, {<<a>>}, free, d) : Len(p) >= 2}
Candidates(k, t, p, step, depth) ==
  LET s == Internal(t, p, step) a == s[1] b == s[Len(s)] free == Outside(k, t) IN
  IF ~Replaceable(k, t, p, step) \/ depth < 2 THEN {}
  ELSE LET all == IF depth = 2 THEN {<<a, u, b>> : u \in {u \in free : IsEdge(k, a, u) /\ IsEdge(k, u, b)}}
                  ELSE {Append(q, b) : q \in {q \in FewestPaths(k, a, free, depth - 1) : IsEdge(k, q[Len(q)], b)}}
       IN {q \in all : PathPrize(k, q) > PathPrize(k, s)}
\* a new path that will be offered whatever shortest path breadth-first search happens to find
SureCandidate(k, t, p, step, depth) ==
  LET s == Internal(t, p, step) a == s[1] b == s[Len(s)] free == Outside(k, t) IN
  /\ Replaceable(k, t, p, step) /\ depth >= 2
  /\ IF depth = 2 THEN Candidates(k, t, p, step, depth) # {}
     ELSE LET F == FewestPaths(k, a, free, depth - 1) IN
          \E u \in {q[Len(q)] : q \in F} : IsEdge(k, u, b)
             /\ \A q \in {q \in F : q[Len(q)] = u} : PathPrize(k, Append(q, b)) > PathPrize(k, s)
\* the tour (from the same first vertex) with the path from p on replaced
Swap(t, p, step, new) ==
  LET k1 == Steps(t)
      rest == [x \in 1..(k1 - step - 1) |-> At(t, p + step + x)]   \* strictly between the end and the start of the path
      cyc == new \o rest
      closed == cyc \o <<cyc[1]>>
  IN Turn(closed, t[1])
=============================================================================
