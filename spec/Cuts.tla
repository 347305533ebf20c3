-------------------------------- MODULE Cuts --------------------------------
(* Cutting planes against the problem machine: a row  terms <= rhs  may never
   cut off a tour the machine can close (for cycle covers: one that meets the
   quota), it is only added when the point at hand violates it, and a point that
   splits into several pieces, or hangs together by less than two units, or does
   not collect the quota around the root is always cut off.
   Records: points[p].val, and for each point the rows of the disjoint-tour rule
   (dt), of the max-flow rule (mf), of both together and of the cycle covers
   (cyc, with the verdict cycviol); or rows added during a whole run (rows).
   ndt, nmf, nboth: <<disjoint tour, max flow>> cuts the books of the node say
   the call added (Which = "count").                                          *)
EXTENDS PCTSP

VARIABLE used
CONSTANT Which      \* "sec", "cyc" or "count"

R(k) == Recs[k]
NoBound(k) == Inf
Err(k) == Has(R(k), "err")
NP(k) == IF Err(k) \/ ~Has(R(k), "out") \/ ~R(k).reached THEN 0 ELSE Len(R(k).out)
Out(k, p) == R(k).out[p]
Lists(k, p) == IF Which # "cyc" THEN <<Out(k, p).dt, Out(k, p).mf, Out(k, p).both>> ELSE <<Out(k, p).cyc>>
Rows(k, p) == UNION {Rng(Lists(k, p)[j]) : j \in DOMAIN Lists(k, p)}
RunRows(k) == IF Err(k) \/ ~Has(R(k), "rows") THEN {} ELSE {x.row : x \in {x \in Rng(R(k).rows) : x.h = Which /\ ~x.local}}
AllRows(k) == IF Which = "count" THEN {} ELSE UNION {Rows(k, p) : p \in 1..NP(k)} \cup RunRows(k)

(* ---- the point *)
Val(k, p) == R(k).points[p].val
X(k, p, u, v) == LET m == {j \in DOMAIN Val(k, p) : {Val(k, p)[j][1], Val(k, p)[j][2]} = {u, v}} IN
                 IF m = {} THEN 0 ELSE Val(k, p)[CHOOSE j \in m : TRUE][3]
Sup(k, p) == SelectSeq(Val(k, p), LAMBDA e : e[1] # e[2])
Comp(k, p, v) == Reach(Sup(k, p), {v})
Y(k, p, v) == X(k, p, v, v)
RowAt(k, p, r) == SumSeq([j \in DOMAIN r.terms |-> r.terms[j][3] * X(k, p, r.terms[j][1], r.terms[j][2])])
Violated(k, p, r) == (r.hasrhs /\ RowAt(k, p, r) > r.rhs * R(k).den) \/ (r.haslhs /\ RowAt(k, p, r) < r.lhs * R(k).den)
Cuts(k, p, rows) == \E j \in DOMAIN rows : Violated(k, p, rows[j])
Unit(k, p) == Y(k, p, R(k).root) = R(k).den
CutVal(k, p, S) == SumSeq([j \in DOMAIN Sup(k, p) |-> IF (Sup(k, p)[j][1] \in S) # (Sup(k, p)[j][2] \in S) THEN Sup(k, p)[j][3] ELSE 0])
\* a piece of at least two vertices without the root
Loose(k, p) == \E j \in DOMAIN Sup(k, p) : R(k).root \notin Comp(k, p, Sup(k, p)[j][1])
\* a vertex fully visited, held to the root by less than two units
Weak(k, p) == LET C == Comp(k, p, R(k).root) \ {R(k).root} IN
  \E S \in SUBSET C : (\E v \in S : Y(k, p, v) = R(k).den) /\ CutVal(k, p, S) < 2 * R(k).den
Poor(k, p) == PrizeOf(k, Comp(k, p, R(k).root)) < R(k).quota

SecWrong(k, p) ==
  IF Loose(k, p) /\ ~(Cuts(k, p, Out(k, p).dt) /\ Cuts(k, p, Out(k, p).both)) THEN "a subtour away from the root is not cut off"
  ELSE IF Unit(k, p) /\ Weak(k, p) /\ ~(Cuts(k, p, Out(k, p).mf) /\ Cuts(k, p, Out(k, p).both))
       THEN "a visited vertex held to the root by less than two units is not cut off"
  ELSE ""
\* the disjoint tour rule adds x(E(S)) <= y(S - v) for every piece S away from the root and v in S that breaks it; rows that coincide
\* (after variables have been aggregated) are one
Away(k, p) == UNION {{Sup(k, p)[j][1], Sup(k, p)[j][2]} : j \in DOMAIN Sup(k, p)} \ Comp(k, p, R(k).root)
Excess(k, p, v) == LET S == Comp(k, p, v) IN
  SumSeq([j \in DOMAIN Val(k, p) |-> LET e == Val(k, p)[j] IN
     IF {e[1], e[2]} \subseteq S THEN (IF e[1] # e[2] THEN e[3] ELSE IF e[1] = v THEN 0 ELSE -e[3]) ELSE 0])
Broken(k, p) == Cardinality({v \in Away(k, p) : Excess(k, p, v) > 0})
CountWrong(k, p) ==
  LET o == Out(k, p) IN
  IF o.ndt # <<Broken(k, p), 0>> THEN "the disjoint tour rule is booked with another number of cuts than it added"
  ELSE IF o.nmf[1] # 0 \/ o.nmf[2] < Len(o.mf) \/ (o.nmf[2] > 0) # (o.mf # <<>>) THEN "the max flow rule is booked with another number of cuts than it added"
  ELSE IF o.nboth[1] # Broken(k, p) \/ o.nboth[1] + o.nboth[2] < Len(o.both) THEN "both rules together are booked with another number of cuts than they added"
  ELSE ""
CycWrong(k, p) ==
  IF Out(k, p).cycviol # Poor(k, p) THEN "the cycle cover is not violated exactly when the piece with the root is below the quota"
  ELSE IF ~Poor(k, p) /\ Out(k, p).cyc # <<>> THEN "adds a cycle cover although the piece with the root meets the quota"
  ELSE IF Poor(k, p) /\ Cardinality(Comp(k, p, R(k).root)) >= 2 /\ ~Cuts(k, p, Out(k, p).cyc) THEN "a piece below the quota is not cut off"
  ELSE ""
PointWrong(k, p) ==
  IF \E r \in Rows(k, p) : ~r.fine THEN "a row has terms that are not edges or vertices"
  ELSE IF \E r \in Rows(k, p) : ~Violated(k, p, r) THEN "a row is added that the point at hand satisfies"
  ELSE IF Which = "count" THEN CountWrong(k, p) ELSE IF Which = "sec" THEN SecWrong(k, p) ELSE CycWrong(k, p)
Wrong(k) == IF Err(k) THEN "raised " \o R(k).err
            ELSE IF \E r \in RunRows(k) : ~r.fine THEN "a row has terms that are not edges or vertices"
            ELSE LET w == {p \in 1..NP(k) : PointWrong(k, p) # ""} IN IF w = {} THEN "" ELSE PointWrong(k, CHOOSE p \in w : TRUE)

Init == \E k \in 1..NR : Start(k) /\ st = "claim" /\ used = {}
CheckClaim ==
  /\ st = "claim" /\ UNCHANGED <<i, vis, cur, cost, used>>
  /\ LET w == Wrong(i) IN IF w = "" THEN Seen(i) ELSE Bad(i, w)
  /\ st' = IF AllRows(i) = {} THEN "done" ELSE "build"
Go == (\E w \in Adj(i, cur) : Extend(w) /\ used' = used \cup {{cur, w}})
      \/ (Close /\ used' = used \cup {{cur, Recs[i].root}})
Next == CheckClaim \/ Go

\* no closed tour is cut off
On(u, v) == IF u = v THEN u \in vis ELSE {u, v} \in used
AtTour(r) == SumSeq([j \in DOMAIN r.terms |-> IF On(r.terms[j][1], r.terms[j][2]) THEN r.terms[j][3] ELSE 0])
Holds(r) == (r.hasrhs => AtTour(r) <= r.rhs) /\ (r.haslhs => AtTour(r) >= r.lhs)
Report == (st = "closed" /\ Cardinality(used) = Cardinality(vis) /\ (Which = "cyc" => PrizeOf(i, vis) >= R(i).quota)) =>
   ((\A r \in AllRows(i) : Holds(r)) \/ Bad(i, IF Which = "sec" THEN "a subtour elimination row cuts off a tour" ELSE "a cycle cover cuts off a feasible tour"))
=============================================================================
