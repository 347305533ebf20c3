------------------------------ MODULE Suurballe ------------------------------
(* Least-cost pairs of arc-disjoint paths from a source to every vertex of an
   asymmetric digraph.  A record has n, src, arcs (<<u, v, cost>>) and, for each
   vertex, what the code answered: ans[v+1] = [skip: not asked, in: reached,
   lab: a pair exists, cost, p1, p2].
   A pair of arc-disjoint paths is a flow of value two; it is of least cost
   exactly if its residual network has no negative cycle, and no pair exists
   exactly if the removal of one arc disconnects the target (Menger).
   hint[v+1] may carry certificates found by the harness: potentials pot of the
   residual network, or an arc cut whose removal disconnects the target.  They
   are checked here; without a valid one the full search decides.             *)
EXTENDS Recs

VARIABLES i, t
vars == <<i, t>>

\* aw[u+1][v+1] is the cost of the arc <<u, v>>, or -1
Vs(k) == 0..(Recs[k].n - 1)
IsArc(k, u, v) == Recs[k].aw[u + 1][v + 1] >= 0
ACost(k, a) == Recs[k].aw[a[1] + 1][a[2] + 1]

RECURSIVE Closure(_, _, _)
\* the vertices reached from S (last found: F) without the arc x
Closure(k, x, SF) ==
  LET N == {v \in Vs(k) \ SF[1] : \E u \in SF[2] : IsArc(k, u, v) /\ <<u, v>> # x}
  IN IF N = {} THEN SF[1] ELSE Closure(k, x, <<SF[1] \cup N, N>>)
ReachableWithout(k, x) == Closure(k, x, <<{Recs[k].src}, {Recs[k].src}>>)
NoArc == <<-1, -1>>

Hint(k, v) == Recs[k].hint[v + 1]
PairExists(k, v) ==
  /\ v \in ReachableWithout(k, Hint(k, v).cut)
  /\ v \in ReachableWithout(k, NoArc)
  /\ \A j \in DOMAIN Recs[k].arcs : v \in ReachableWithout(k, <<Recs[k].arcs[j][1], Recs[k].arcs[j][2]>>)

PArcs(p) == {<<p[j], p[j + 1]>> : j \in 1..(Len(p) - 1)}
IsPath(k, p, v) == /\ Len(p) >= 2 /\ p[1] = Recs[k].src /\ p[Len(p)] = v
                   /\ NoRepeat(p)
                   /\ \A j \in DOMAIN p : p[j] \in Vs(k)
                   /\ \A j \in 1..(Len(p) - 1) : IsArc(k, p[j], p[j + 1])
Total(k, p) == SumSeq([j \in 1..(Len(p) - 1) |-> ACost(k, <<p[j], p[j + 1]>>)])

(* the residual network of the two paths: arcs <<u, v, cost>>; a least-cost pair has no negative cycle, i.e.
   distances from an artificial source stop improving within n rounds *)
Residual(k, F) == [j \in DOMAIN Recs[k].arcs |->
  LET a == Recs[k].arcs[j] IN IF <<a[1], a[2]>> \in F THEN <<a[2], a[1], -a[3]>> ELSE a]
RECURSIVE Scan(_, _, _)
Scan(R, d, j) == IF j > Len(R) THEN d
                 ELSE LET x == d[R[j][1] + 1] + R[j][3] IN
                      Scan(R, IF x < d[R[j][2] + 1] THEN [d EXCEPT ![R[j][2] + 1] = x] ELSE d, j + 1)
RECURSIVE Relax(_, _, _)
Relax(R, d, rounds) == LET e == Scan(R, d, 1)
                       IN IF e = d THEN TRUE ELSE IF rounds = 0 THEN FALSE ELSE Relax(R, e, rounds - 1)
NoNegativeCycle(k, F, pot) ==
  LET R == Residual(k, F) IN
  \/ pot # <<>> /\ \A j \in DOMAIN R : pot[R[j][2] + 1] <= pot[R[j][1] + 1] + R[j][3]
  \/ Relax(R, [v \in 1..Recs[k].n |-> 0], Recs[k].n + 1)

Judge(k, v) ==
  LET a == Recs[k].ans[v + 1] IN
  IF a.skip THEN ""
  ELSE IF ~a.in THEN
    IF v \in ReachableWithout(k, NoArc) THEN "a reachable vertex is missing from the tree" ELSE ""
  ELSE IF v = Recs[k].src THEN
    IF a.lab /\ a.cost = 0 THEN "" ELSE "the source itself is not labelled at cost zero"
  ELSE IF ~a.lab THEN
    IF v \notin ReachableWithout(k, NoArc) THEN "a vertex that cannot be reached is in the tree"
    ELSE IF PairExists(k, v) THEN "not labelled although two arc-disjoint paths exist"
    ELSE IF a.cost # -1 THEN "a finite cost although no two arc-disjoint paths exist"
    ELSE IF a.p1 # <<>> \/ a.p2 # <<>> THEN "paths returned although no two arc-disjoint paths exist" ELSE ""
  ELSE IF ~(IsPath(k, a.p1, v) /\ IsPath(k, a.p2, v)) THEN
    IF PairExists(k, v) THEN "an extracted path is not a path of the graph from the source to the target"
    ELSE "labelled although no two arc-disjoint paths exist"
  ELSE IF PArcs(a.p1) \cap PArcs(a.p2) # {} THEN "the extracted paths share an arc"
  ELSE IF Total(k, a.p1) + Total(k, a.p2) # a.cost THEN "the reported cost is not the cost of the extracted paths"
  ELSE IF ~NoNegativeCycle(k, PArcs(a.p1) \cup PArcs(a.p2), Hint(k, v).pot) THEN "a cheaper pair of arc-disjoint paths exists"
  ELSE ""

Init == i \in 1..NR /\ t = -1
Next == /\ t = -1 /\ UNCHANGED i
        /\ IF Has(Recs[i], "err") THEN t' = -2 ELSE t' \in 0..(Recs[i].n - 1)
Report == CASE t = -1 -> Has(Recs[i], "err") \/ Seen(i)
            [] t = -2 -> Bad(i, "raised " \o Recs[i].err)
            [] OTHER -> LET j == Judge(i, t) IN j = "" \/ Bad(i, j)
=============================================================================
