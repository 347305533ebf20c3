-------------------------------- MODULE Cover --------------------------------
(* The cost cover rule against the problem machine.  Whenever a tour of cost b
   is found, the root is paired with every vertex (other than itself) that cannot
   be visited for b or less: the row  root + v <= 1.  The costs are given, or
   twice the shortest distance from the root.  Exactly these rows are added, they
   are counted, and no tour of cost b or less that the machine can close is cut
   off (given costs: no tour that visits only vertices for which they are honest). *)
EXTENDS PCTSP

R(k) == Recs[k]
NoBound(k) == Inf
Err(k) == Has(R(k), "err")
Root(k) == R(k).root

(* ---- twice the shortest distance from the root, for the vertices it reaches *)
RECURSIVE Relax(_, _)
Relax(k, d) ==
  LET nd == [v \in Verts(k) |->
               LET c == {d[u] + Cost(k, u, v) : u \in {u \in Adj(k, v) : d[u] < Inf}} \cup {d[v]} IN CHOOSE x \in c : \A y \in c : x <= y]
  IN IF nd = d THEN d ELSE Relax(k, nd)
Short(k) == Relax(k, [v \in Verts(k) |-> IF v = Root(k) THEN 0 ELSE Inf])
Honest(k) == LET d == TLCEval(Short(k)) IN \A v \in Verts(k) : d[v] < Inf => R(k).dist[v + 1] = 2 * d[v]
Given(k) == R(k).mode = "dps"

(* ---- the rows of one bound *)
Pair(r) == {r.terms[j][1] : j \in DOMAIN r.terms}
IsPair(k, r) == /\ r.fine /\ Len(r.terms) = 2 /\ ~r.haslhs /\ r.hasrhs /\ r.rhs = 1
                /\ \A j \in {1, 2} : r.terms[j][1] = r.terms[j][2] /\ r.terms[j][3] = 1
                /\ Cardinality(Pair(r)) = 2 /\ Root(k) \in Pair(r)
Far(k, b) == {v \in Verts(k) : v # Root(k) /\ R(k).dist[v + 1] > b}
StepWrong(k, s) ==
  LET rs == s.rows IN
  IF \E j \in DOMAIN rs : ~IsPair(k, rs[j]) THEN "a cost cover is not a row that pairs the root with another vertex"
  ELSE IF s.others # 0 THEN "adds something that is not a cost cover"
  ELSE LET S == {CHOOSE v \in Pair(rs[j]) : v # Root(k) : j \in DOMAIN rs}
           \* what the code's distance says of vertices without a path to the root does not matter
           U == IF Given(k) THEN {} ELSE LET d == TLCEval(Short(k)) IN {v \in Verts(k) : d[v] = Inf} IN
       IF S \ U # Far(k, s.bound) \ U THEN "the vertices that are covered are not those beyond the bound"
       ELSE IF Cardinality(S) # Len(rs) THEN "the same cover is added twice"
       ELSE IF s.added # Len(rs) THEN "the number of covers that is reported is not the number that was added"
       ELSE ""
Wrong(k) ==
  IF Err(k) THEN "raised " \o R(k).err
  ELSE IF Given(k) /\ R(k).dist # R(k).dps THEN "the rule does not keep the costs it is given"
  ELSE IF ~Given(k) /\ ~Honest(k) THEN "the cost to visit a vertex is not twice its shortest distance"
  ELSE IF Len(R(k).out) # Len(R(k).bounds) THEN "a bound was left out"
  ELSE LET w == {j \in DOMAIN R(k).out : StepWrong(k, R(k).out[j]) # ""} IN IF w = {} THEN "" ELSE StepWrong(k, R(k).out[CHOOSE j \in w : TRUE])

Init == \E k \in 1..NR : Start(k) /\ st = "claim"
CheckClaim == /\ st = "claim" /\ UNCHANGED <<i, vis, cur, cost>>
              /\ LET w == Wrong(i) IN IF w = "" THEN Seen(i) /\ st' = "build" ELSE Bad(i, w) /\ st' = "done"
Next == CheckClaim \/ Build

Allowed(s) == cost <= s.bound /\ (Given(i) => \A v \in vis : v # Root(i) => R(i).dist[v + 1] <= cost)
CutOff(s) == \E j \in DOMAIN s.rows : Pair(s.rows[j]) \subseteq vis
Report == (st = "closed" /\ \E j \in DOMAIN R(i).out : Allowed(R(i).out[j]) /\ CutOff(R(i).out[j])) => Bad(i, "a cost cover cuts off a tour within the bound")
=============================================================================
