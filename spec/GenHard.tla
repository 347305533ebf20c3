------------------------------ MODULE GenHard -------------------------------
(* Instances on which branch and cut has work to do: clusters of vertices close
   to each other and far from the rest, with a quota that needs several of them,
   so that relaxations fall apart into subtours; every option of a whole run.  *)
EXTENDS GenSolve
CONSTANTS FAR

HShape ==
  /\ ph = "shape" /\ ph' = "hard"
  /\ \E n \in {TLCEval(R(NMIN..NMAX))} : \E k \in {TLCEval(R({2, 2, 3, 3, 4}))} :
       g' = [n |-> n, k |-> k, dens |-> TLCEval(R({6, 8, 10, 10})), unit |-> TLCEval(Coin(1, 4)),
             root |-> TLCEval(IF Coin(1, 3) THEN 0 ELSE R(0..(n - 1))), part |-> TLCEval([v \in 1..n |-> IF Coin(4, 5) THEN (v - 1) % k ELSE R(0..(k - 1))])]
HGraph ==
  /\ ph = "hard" /\ ph' = "quota"
  /\ LET cand == {p \in (0..(g.n - 1)) \X (0..(g.n - 1)) : p[1] < p[2]} IN
     \E E \in {TLCEval({p \in cand : R(1..10) <= g.dens})} : \E es \in {TLCEval(Shuffle(E))} :
     \E p \in {TLCEval([v \in 1..g.n |-> IF g.unit THEN 1 ELSE R(0..PMAX)])} :
     \E t \in {TLCEval(Walk([n |-> g.n, edges |-> es], 3))} :
       g' = g @@ [prize |-> p, tour |-> IF g.root \in {t[j] : j \in DOMAIN t} THEN t ELSE <<>>,
                  edges |-> TLCEval([j \in DOMAIN es |-> <<es[j][1], es[j][2],
                     IF g.part[es[j][1] + 1] = g.part[es[j][2] + 1] THEN R(1..CMAX) ELSE FAR + R(0..CMAX)>>])]
HQuota ==
  /\ ph = "quota" /\ ph' = "labels"
  /\ LET tot == SumN(g.prize) IN g' = g @@ [quota |-> TLCEval(R(((tot * 2) \div 3)..tot))]
HardNext == HShape \/ HGraph \/ HQuota \/ Labels \/ Options
=============================================================================
