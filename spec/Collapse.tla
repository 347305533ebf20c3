------------------------------ MODULE Collapse ------------------------------
(* The collapse heuristic.  From every position of the tour a path is walked
   along the tour for as long as its prize stays below the quota; when the
   walk meets a vertex that would reach the quota, and has seen the root, it
   may be closed by a shorter connection from its last to its first vertex:
   one vertex outside the path, or (csp) a shortest path outside the path.
   The cheapest such tour that still meets the quota replaces the given one
   if it is strictly cheaper.
   Which of several shortest paths is offered is left open.                 *)
EXTENDS Tours

VARIABLES i, ph, p, path, found
vars == <<i, ph, p, path, found>>

Res(k) == R(k).res
Start(k) == R(k).tour
NeedCsp(k) == R(k).csp
\* found: the tours that may be offered (as [t, c]) and the least cost that is certainly offered
Init == i \in 1..NR /\ ph = "start" /\ p = 0 /\ path = <<>> /\ found = [may |-> {}, sure |-> {}]

Begin == /\ ph = "start" /\ ~Has(R(i), "err") /\ ph' = "walk" /\ p' = 0 /\ path' = <<Start(i)[1]>> /\ UNCHANGED <<i, found>>
Fail  == ph = "start" /\ Has(R(i), "err") /\ ph' = "err" /\ UNCHANGED <<i, p, path, found>>

NextV == At(Start(i), p + Len(path))
NextStart == IF p + 1 = Steps(Start(i)) THEN ph' = "end" /\ UNCHANGED <<i, p, path, found>>
             ELSE ph' = "walk" /\ p' = p + 1 /\ path' = <<Start(i)[p + 2]>> /\ UNCHANGED <<i, found>>
\* the walk has been all round, or its first vertex alone meets the quota
Exhausted == PathPrize(i, path) >= R(i).quota \/ Len(path) = Steps(Start(i))
Reached == PathPrize(i, path) + Prize(i, NextV) >= R(i).quota
Walk == ph = "walk" /\ ~Exhausted /\ ~Reached /\ path' = Append(path, NextV) /\ UNCHANGED <<i, ph, p, found>>
Skip == ph = "walk" /\ (Exhausted \/ (Reached /\ R(i).root \notin Rng(path))) /\ NextStart

(* the shortest connections from the last vertex of the path to its first: distances to the end, then the walks that keep to them *)
RECURSIVE Dist(_, _)
Dist(k, d) ==
  LET e == TLCEval([v \in DOMAIN d |-> Min({d[v]} \cup {Cost(k, v, w) + d[w] : w \in {w \in DOMAIN d : IsEdge(k, v, w) /\ d[w] < INF}})])
  IN IF e = d THEN d ELSE Dist(k, e)
RECURSIVE Along(_, _, _, _)
Along(k, s, to, d) ==
  LET u == s[Len(s)] IN
  IF u = to THEN {s}
  ELSE UNION {Along(k, Append(s, v), to, d) : v \in {v \in DOMAIN d \ Rng(s) : IsEdge(k, u, v) /\ d[v] < INF /\ Cost(k, u, v) + d[v] = d[u]}}
Shortest(k, a, b, free) == Along(k, <<a>>, b, Dist(k, [v \in free \cup {a, b} |-> IF v = b THEN 0 ELSE INF]))
Closing == LET a == path[Len(path)] b == path[1] IN
  [one |-> {<<a, u, b>> : u \in {u \in Verts(i) \ Rng(path) : IsEdge(i, a, u) /\ IsEdge(i, u, b)}},
   short |-> IF ~NeedCsp(i) THEN {} ELSE Shortest(i, a, b, Verts(i) \ Rng(path))]
Meets(q) == PrizeOf(i, Rng(path) \cup Rng(q)) >= R(i).quota
Offer(q) == [t |-> path \o Tail(q), c |-> WalkCost(i, path) + WalkCost(i, q)]
Close ==
  /\ ph = "walk" /\ ~Exhausted /\ Reached /\ R(i).root \in Rng(path)
  /\ IF Len(path) = 1 THEN NextStart
     ELSE LET C == Closing
              one == {q \in C.one : Meets(q)}
              short == {q \in C.short : Meets(q)}
              may == {Offer(q) : q \in one \cup short}
              sure == {Offer(q).c : q \in IF short = C.short THEN one \cup short ELSE one}
          IN /\ found' = [may |-> found.may \cup may, sure |-> found.sure \cup sure]
             /\ IF p + 1 = Steps(Start(i)) THEN ph' = "end" /\ UNCHANGED <<i, p, path>>
                ELSE ph' = "walk" /\ p' = p + 1 /\ path' = <<Start(i)[p + 2]>> /\ UNCHANGED i

Same(a, b) == a = b \/ a = [j \in DOMAIN b |-> b[Len(b) + 1 - j]]
FromRoot(k, t) == Turn(t, R(k).root)
Accepts ==
  LET r == Res(i) c0 == WalkCost(i, Start(i)) c == WalkCost(i, r) IN
  \/ /\ \A s \in found.sure : c0 <= s
     /\ Same(r, FromRoot(i, Start(i)))
  \/ /\ c < c0 /\ \A s \in found.sure : c <= s
     /\ \E o \in found.may : o.c = c /\ Same(r, FromRoot(i, o.t))
Finish == ph = "end" /\ ph' = (IF Accepts THEN "ok" ELSE "no") /\ UNCHANGED <<i, p, path, found>>

Next == Begin \/ Fail \/ Walk \/ Skip \/ Close \/ Finish

Judge(k) ==
  LET r == Res(k) s == Start(k) IN
  IF ~IsTour(k, r) THEN "the collapsed tour is not a simple closed tour of the graph"
  ELSE IF r[1] # R(k).root THEN "the collapsed tour does not start at the root"
  ELSE IF WalkCost(k, r) > WalkCost(k, s) THEN "collapsing made the tour more expensive"
  ELSE IF TourPrize(k, s) >= R(k).quota /\ TourPrize(k, r) < R(k).quota THEN "collapsing lost the quota"
  ELSE ""
Report ==
  CASE ph = "err" -> Bad(i, "raised " \o R(i).err)
    [] ph = "walk" /\ p = 0 /\ Len(path) = 1 -> LET j == Judge(i) IN j = "" \/ Bad(i, j)
    [] ph = "ok" -> Seen(i)
    [] OTHER -> TRUE
=============================================================================
