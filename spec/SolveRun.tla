------------------------------ MODULE SolveRun ------------------------------
(* A whole run of branch and cut as the observer saw it, replayed step by step
   through a machine that keeps the books the solver should keep:
     focus  a node becomes current (node, its parent, bounds x <= y)
     sep    the separation rules are about to run at a node (support sup)
     row    a row of the subtour handler is added at a node
     lp     the relaxation of a node is solved (global bounds x, y)
     best   a new best tour of cost x
     enf    the subtour handler is about to judge a solved relaxation (support
            sup, gap x between the best tour and the node's bound in millionths;
            y: the number of fractional variables, -1 if the relaxation was not
            solved to the end)
     enf2   it has judged, without branching
   At the end the books of the code must agree with the machine's.
   Books: "nodes" (node statistics and bounds), "summary" (the statistics file),
   "cover" (the number of cost covers), "tail" (tailing off: the handler branches
   exactly when the gap of the node has improved by less than the threshold over
   the last rounds).                                                           *)
EXTENDS Recs
CONSTANT Book

VARIABLES i, j, node, nlp, cov,      \* record, position, node records, lp events seen, covers added (per rule)
          win, must                  \* the last gaps of every node; what must follow a judgement
vars == <<i, j, node, nlp, cov, win, must>>

R(k) == Recs[k]
Err(k) == Has(R(k), "err")
Log(k) == R(k).log
Verts2(sup) == EdgeVerts(sup)
Loose(k, sup) == EdgeVerts(sup) \ Reach(sup, {R(k).root})
\* the disjoint-tour rule adds x(E(S)) <= y(S - v) for every piece S away from the root and v in S, if the point (in millionths) breaks it by more than a trifle
Excess(k, e, v) == LET S == Reach(e.sup, {v}) IN
  SumSeq([x \in DOMAIN e.val |-> IF {e.val[x][1], e.val[x][2]} \subseteq S
                                 THEN (IF e.val[x][1] # e.val[x][2] THEN e.val[x][3] ELSE IF e.val[x][1] = v THEN 0 ELSE -e.val[x][3]) ELSE 0])
Broken(k, e, least) == Cardinality({v \in Loose(k, e.sup) : Excess(k, e, v) >= least})
None == [id |-> 0, par |-> 0, lb |-> 0, ub |-> 0, dt |-> 0, most |-> 0, rows |-> 0]
Upd(f, x, v) == (x :> v) @@ f
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE None
Above(k, dist, c) == Cardinality({v \in Verts(k) : v # R(k).root /\ dist[v + 1] > c})
Init0(k, h) == IF ~Err(k) /\ h.on /\ R(k).heur # <<>> /\ EdgesCost(k, [x \in 1..(Len(R(k).heur) - 1) |-> <<R(k).heur[x], R(k).heur[x + 1]>>]) > 0
               THEN Above(k, h.dist, EdgesCost(k, [x \in 1..(Len(R(k).heur) - 1) |-> <<R(k).heur[x], R(k).heur[x + 1]>>])) ELSE 0

Init == /\ i \in 1..NR /\ j = 0 /\ node = <<>> /\ nlp = 0
        /\ win = <<>> /\ must = "any"
        /\ cov = IF Err(i) THEN <<0, 0>> ELSE <<Init0(i, R(i).ccdp), Init0(i, R(i).ccsp)>>

E(k) == Log(k)[j + 1]
Focus == /\ E(i).e = "focus"
         /\ node' = IF E(i).node \in DOMAIN node THEN node      \* the same node again (after a restart): its record stays
                    ELSE Upd(node, E(i).node, [id |-> E(i).node, par |-> E(i).par, lb |-> E(i).x, ub |-> E(i).y, dt |-> 0, most |-> 0, rows |-> 0])
         /\ UNCHANGED <<nlp, cov>>
Sep == /\ E(i).e = "sep"
       /\ LET x == At(node, E(i).node) IN
          node' = Upd(node, E(i).node, IF Book = "nodes" /\ R(i).sec_dt THEN [x EXCEPT !.dt = @ + Broken(i, E(i), 5000), !.most = @ + Broken(i, E(i), 20)] ELSE x)
       /\ UNCHANGED <<nlp, cov>>
Row == /\ E(i).e = "row"
       /\ LET x == At(node, E(i).node) IN node' = Upd(node, E(i).node, [x EXCEPT !.rows = @ + 1])
       /\ UNCHANGED <<nlp, cov, win, must>>
Lp == /\ E(i).e = "lp" /\ nlp' = nlp + 1 /\ UNCHANGED <<node, cov>>
      /\ LET b == R(i).bounds IN
         IF Book # "nodes" \/ nlp' > Len(b) THEN TRUE
         ELSE IF b[nlp'].node # E(i).node \/ b[nlp'].lb # E(i).x \/ b[nlp'].ub # E(i).y
              THEN Bad(i, "the bounds recorded for a solved relaxation are not those of its node at that time")
              ELSE TRUE
Best == /\ E(i).e = "best"
        /\ cov' = <<cov[1] + (IF R(i).ccdp.on THEN Above(i, R(i).ccdp.dist, E(i).x) ELSE 0),
                    cov[2] + (IF R(i).ccsp.on THEN Above(i, R(i).ccsp.dist, E(i).x) ELSE 0)>>
        /\ UNCHANGED <<node, nlp>>
(* ---- tailing off.  win: the last R(i).tail gaps of a node                   *)
IsCycle(sup) == sup # <<>> /\ LET V == EdgeVerts(sup) IN
  /\ \A v \in V : Cardinality({x \in DOMAIN sup : v \in {sup[x][1], sup[x][2]}}) = 2
  /\ Reach(sup, {sup[1][1]}) = V
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Big == 2000000000
Gain(w) == w[1] - w[Len(w)]
Infinite(x) == x = Big
Judge(k, w) ==
  IF R(k).tail < 2 \/ Len(w) < R(k).tail THEN "pass"
  ELSE IF Infinite(w[1]) /\ ~Infinite(w[Len(w)]) THEN "pass"
  ELSE IF Gain(w) > R(k).thr * 1000 + 2 THEN "pass"
  ELSE IF Gain(w) < R(k).thr * 1000 - 2 THEN "branch" ELSE "any"     \* too close to call
Enf == /\ E(i).e = "enf" /\ UNCHANGED <<node, nlp, cov>>
       /\ IF Book # "tail" THEN UNCHANGED <<win, must>>
          ELSE IF IsCycle(E(i).sup) THEN must' = "pass" /\ UNCHANGED win
          ELSE LET w == Last((IF E(i).node \in DOMAIN win THEN win[E(i).node] ELSE <<>>) \o <<E(i).x>>, IF R(i).tail < 1 THEN 0 ELSE R(i).tail)
               IN win' = Upd(win, E(i).node, w) /\ must' = IF E(i).y > 0 THEN Judge(i, w) ELSE "pass"
Follow == IF Book # "tail" THEN TRUE
          ELSE IF must = "pass" /\ E(i).e \notin {"enf2", "row"} THEN Bad(i, "the subtour handler branches although the relaxation has not tailed off")
          ELSE IF must = "branch" /\ E(i).e = "enf2" THEN Bad(i, "the subtour handler does not branch although the relaxation has tailed off")
          ELSE TRUE
Enf2 == E(i).e = "enf2" /\ must' = "any" /\ UNCHANGED <<node, nlp, cov, win>>
Step == /\ ~Err(i) /\ j < Len(Log(i)) /\ j' = j + 1 /\ UNCHANGED i
        /\ Follow
        /\ \/ Enf \/ Enf2 \/ Row
           \/ (Focus \/ Sep \/ Lp \/ Best) /\ must' = "any" /\ UNCHANGED win

(* ---- the books at the end *)
Got(k, x) == R(k).nodestats[x]
SumN(k, f) == SumSeq([x \in DOMAIN R(k).nodestats |-> IF f = "dt" THEN Got(k, x).dt ELSE Got(k, x).mf])
RowsOf(k, h) == Cardinality({x \in DOMAIN R(k).rows : R(k).rows[x].h = h})
Nodes(k) ==
  IF \E x \in DOMAIN node : x > Len(R(k).nodestats) \/ Got(k, x).id # x \/ Got(k, x).par # node[x].par
    THEN "a node that was visited has no record, or another node's"
  ELSE IF \E x \in DOMAIN R(k).nodestats : x \notin DOMAIN node /\ (Got(k, x).dt # 0 \/ Got(k, x).mf # 0)
    THEN "a node that was never visited has statistics"
  ELSE IF \E x \in DOMAIN node : Got(k, x).lb # node[x].lb \/ Got(k, x).ub # node[x].ub THEN "the bounds of a node are not those it was entered with"
  ELSE IF \E x \in DOMAIN node : Got(k, x).dt > node[x].most \/ (~R(k).cyc /\ Got(k, x).dt < node[x].dt) THEN "the number of disjoint-tour cuts of a node is wrong"
  ELSE IF \E x \in DOMAIN node : Got(k, x).dt + Got(k, x).mf < node[x].rows THEN "fewer subtour cuts are counted at a node than were added"
  ELSE IF \E x \in DOMAIN node : Got(k, x).dt + Got(k, x).mf > 0 /\ node[x].rows = 0 THEN "subtour cuts are counted at a node although none was added"
  ELSE IF ~R(k).sec_dt /\ SumN(k, "dt") # 0 THEN "disjoint-tour cuts are counted although they are switched off"
  ELSE IF ~R(k).sec_mf /\ SumN(k, "mf") # 0 THEN "max-flow cuts are counted although they are switched off"
  ELSE IF Len(R(k).bounds) # nlp THEN "not every solved relaxation has a record of the bounds"
  ELSE IF \E x \in DOMAIN R(k).bounds : R(k).bounds[x].lb > R(k).bounds[x].ub \/ R(k).bounds[x].t < R(k).bounds[x].s
    THEN "a recorded lower bound is above the upper bound, or an interval ends before it starts"
  ELSE IF \E x \in DOMAIN R(k).bounds : x > 1 /\ R(k).bounds[x].s < R(k).bounds[x - 1].t THEN "the recorded intervals overlap"
  ELSE ""
Same(a, b) == a - b \in {-1, 0, 1}
Summary(k) ==
  LET y == R(k).yaml IN
  IF y.status # R(k).status THEN "the status in the summary is not the solver's"
  ELSE IF ~Same(y.lb, R(k).db) \/ ~Same(y.ub, R(k).pb) THEN "the bounds in the summary are not the solver's"
  ELSE IF R(k).res # <<>> /\ ~Same(y.ub, 1000 * EdgesCost(k, R(k).res)) THEN "the upper bound in the summary is not the cost of the answer"
  ELSE IF y.status = 1 /\ ~Same(y.lb, y.ub) THEN "the summary says optimal but its bounds differ"
  ELSE IF y.nodes # R(k).nodes THEN "the number of nodes in the summary is not the solver's"
  ELSE IF y.dt # SumN(k, "dt") \/ y.mf # SumN(k, "mf") THEN "the subtour cuts in the summary are not the sum over the nodes"
  ELSE IF y.ccdp # R(k).ccdp.all \/ y.ccsp # R(k).ccsp.all \/ y.predp # R(k).ccdp.init \/ y.presp # R(k).ccsp.init
    THEN "the cost covers in the summary are not those of their rule"
  ELSE IF y.predp > y.ccdp \/ y.presp > y.ccsp THEN "more cost covers before the run than in all"
  ELSE IF (~R(k).cc_dp /\ y.ccdp # 0) \/ (~R(k).cc_sp /\ y.ccsp # 0) \/ (~R(k).cyc /\ y.cyc # 0) THEN "cuts of a rule that is switched off are counted"
  ELSE IF y.cyc # R(k).ncyc \/ y.cyc < RowsOf(k, "cyc") THEN "the cycle covers in the summary are not those of their rule"
  ELSE ""
Cover(k) ==
  IF R(k).ccdp.on # R(k).cc_dp \/ R(k).ccsp.on # R(k).cc_sp THEN "a cost cover rule is not switched on or off as asked"
  ELSE IF R(k).ccdp.init # Init0(k, R(k).ccdp) \/ R(k).ccsp.init # Init0(k, R(k).ccsp) THEN "the number of cost covers for the tour it was handed is wrong"
  ELSE IF R(k).ccdp.all # cov[1] \/ R(k).ccsp.all # cov[2] THEN "the number of cost covers over all new best tours is wrong"
  ELSE ""
Finish == /\ (Err(i) \/ j = Len(Log(i))) /\ j' = 1000000 /\ UNCHANGED <<i, node, nlp, cov, win, must>>
          /\ LET w == IF Err(i) THEN "raised " \o R(i).err ELSE IF ~R(i).full THEN ""
                      ELSE CASE Book = "nodes" -> Nodes(i) [] Book = "summary" -> Summary(i) [] Book = "cover" -> Cover(i)
                        [] OTHER -> IF must = "pass" THEN "the subtour handler branches although the relaxation has not tailed off" ELSE ""
             IN IF w = "" THEN Seen(i) ELSE Bad(i, w)
Next == (j < 1000000) /\ (Step \/ Finish)
=============================================================================
