-------------------------------- MODULE Prep --------------------------------
(* Preprocessing of the input graph.  Three machines run on every record:
   - tours (PCTSP): every tour through the root survives every reduction, and
     what the two-connectivity reduction keeps is the root and exactly the
     vertices that lie on some tour through it;
   - pruning: repeatedly delete any one vertex with at most one neighbour; every
     maximal deletion order ends in the vertex set that remove_leaves returned;
   - reachability: what the component reduction keeps is what the root reaches.
   A record has leaves, comp, two: what each reduction kept (vertices), deg[v+1]
   and flags sub* (the result is the induced subgraph with its attributes).   *)
EXTENDS PCTSP

R(k) == Recs[k]
Kept(k) == [leaves |-> Rng(R(k).leaves), comp |-> Rng(R(k).comp), two |-> Rng(R(k).two)]
Deg(k, S, v) == Cardinality(Adj(k, v) \cap S)
MyBound(k) == IF Has(R(k), "err") THEN 0 ELSE Inf

RECURSIVE Cl(_, _)
Cl(k, S) == LET T == S \cup UNION {Adj(k, v) : v \in S} IN IF S = T THEN S ELSE Cl(k, T)

Init == \E k \in 1..NR : Start(k) /\ st = "claim"

Claim(k) ==
  LET K == Kept(k) IN
  IF \E v \in Verts(k) : R(k).deg[v + 1] # Cardinality(Adj(k, v)) THEN "degree counts something other than the distinct other neighbours"
  ELSE IF K.comp # Cl(k, {R(k).root}) THEN "the component of the vertex is not what was kept"
  ELSE IF ~(R(k).subleaves /\ R(k).subcomp /\ R(k).subtwo) THEN "the result is not the induced subgraph with its attributes"
  ELSE IF ~R(k).same THEN "the input graph was changed"
  ELSE IF R(k).root \notin K.two THEN "the root was removed"
  ELSE ""
CheckClaim ==
  /\ st = "claim" /\ UNCHANGED <<i, cur, cost>>
  /\ IF Has(R(i), "err") THEN Bad(i, "raised " \o R(i).err)
     ELSE LET c == Claim(i) IN IF c = "" THEN Seen(i) ELSE Bad(i, c)
  /\ \/ st' = "build" /\ vis' = vis
     \/ st' = "prune" /\ vis' = Verts(i)
     \/ st' = "oncycle" /\ vis' = IF Has(R(i), "err") THEN {} ELSE Kept(i).two \ {R(i).root}

Prune == /\ st = "prune" /\ UNCHANGED <<i, cur, cost, st>>
         /\ \E v \in vis : Deg(i, vis, v) <= 1 /\ vis' = vis \ {v}
Pruned == \A v \in vis : Deg(i, vis, v) >= 2

(* a kept vertex w lies on a tour through the root iff no single other vertex
   separates the two and w is not just joined to the root by one edge          *)
ReachAvoid(k, s, x) == LET f[j \in 0..R(k).n] == IF j = 0 THEN {s} ELSE
                              f[j - 1] \cup (UNION {Adj(k, v) : v \in f[j - 1]} \ {x}) IN f[R(k).n]
EdgeAvoid(k, s, w) == LET f[j \in 0..R(k).n] == IF j = 0 THEN {s} ELSE
     f[j - 1] \cup UNION {{u \in Adj(k, v) : ~(v = s /\ u = w)} : v \in f[j - 1]} IN f[R(k).n]
OnTour(k, w) == /\ \A x \in Verts(k) \ {w, R(k).root} : w \in ReachAvoid(k, R(k).root, x)
                /\ w \in EdgeAvoid(k, R(k).root, w)

Next == CheckClaim \/ Build \/ Prune

Report ==
  /\ (st = "closed" /\ ~Has(R(i), "err")) =>
        \/ \A s \in {"leaves", "comp", "two"} : vis \subseteq Kept(i)[s]
        \/ Bad(i, "a tour through the root does not survive the reduction")
  /\ (st = "prune" /\ Pruned /\ ~Has(R(i), "err")) =>
        (vis = Kept(i).leaves \/ Bad(i, "remove_leaves does not return the maximal leafless subgraph"))
  /\ st = "oncycle" =>
        \A w \in vis : OnTour(i, w) \/ Bad(i, "a vertex that is on no tour through the root was kept")
NoCost == <<i, vis, cur, st>>
=============================================================================
