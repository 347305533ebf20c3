------------------------------- MODULE GenBase -------------------------------
(* Generator of problem instances: every behaviour draws one instance.  The
   random choices are TLC's (simulation mode, -seed).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NMIN, NMAX, CMAX, PMAX
CONSTANT Opts(_)      \* what the module using this one adds to the instance

VARIABLES ph, g

\* (mentions a variable so that TLC does not treat a draw from a constant set as a constant)
R(S) == IF ph = "never" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Coin(a, b) == R(1..b) <= a        \* true with probability a/b

RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(R(S)) IN <<x>> \o Shuffle(S \ {x})
RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumN(Tail(s))

GenInit == ph = "shape" /\ g = [id |-> 0]

Shape ==
  /\ ph = "shape" /\ ph' = "tree"
  /\ \E n \in {TLCEval(R(NMIN..NMAX))} :
     \E split \in {TLCEval(IF Coin(1, 8) /\ n >= 6 THEN R(3..(n - 2)) ELSE n)} :
       g' = [n |-> n, split |-> split,
             dens |-> TLCEval(R({0, 0, 1, 2, 4, 6, 8, 10})), thin |-> TLCEval(Coin(1, 4)), cmode |-> TLCEval(R({"any", "any", "any", "one", "two", "zero"})),
             pmode |-> TLCEval(R({"any", "any", "rare", "unit"})),
             root |-> TLCEval(IF Coin(1, 3) THEN 0 ELSE R(0..(n - 1)))]

Same(u, v) == (u < g.split) = (v < g.split)

\* a spanning tree of each side; a thin one has long paths
Tree ==
  /\ ph = "tree" /\ ph' = "cycle"
  /\ \E par \in {TLCEval([v \in 1..(g.n - 1) |->
                   LET lo == IF v < g.split THEN 0 ELSE g.split near == IF g.thin /\ v - 2 > lo THEN v - 2 ELSE lo
                   IN IF v = g.split THEN v ELSE R(near..(v - 1))])} :
       g' = g @@ [tree |-> {<<par[v], v>> : v \in {v \in 1..(g.n - 1) : par[v] # v}}]

\* plant a cycle through the root (with the root's own side of the split)
Cycle ==
  /\ ph = "cycle" /\ ph' = "edges"
  /\ LET side == {v \in 0..(g.n - 1) : Same(v, g.root) /\ v # g.root} IN
     IF Cardinality(side) < 2 \/ Coin(1, 4) THEN g' = g @@ [tour |-> <<>>]
     ELSE \E p \in {TLCEval(Shuffle(side))} : \E m \in {TLCEval(R(2..Len(p)))} :
            g' = g @@ [tour |-> <<g.root>> \o SubSeq(p, 1, m) \o <<g.root>>]

Edges ==
  /\ ph = "edges" /\ ph' = "weights"
  /\ LET cyc == {IF g.tour[j] < g.tour[j + 1] THEN <<g.tour[j], g.tour[j + 1]>> ELSE <<g.tour[j + 1], g.tour[j]>>
                   : j \in 1..(Len(g.tour) - 1)}
         cand == {p \in (0..(g.n - 1)) \X (0..(g.n - 1)) : p[1] < p[2] /\ Same(p[1], p[2])}
         thin == IF g.n <= 15 THEN 1 ELSE g.n \div 6      \* large instances are sparse
     IN \E E \in {TLCEval({p \in cand : p \in g.tree \/ p \in cyc \/ R(1..(10 * thin)) <= g.dens})} :
          g' = g @@ [es |-> TLCEval(Shuffle(E))]

Weights ==
  /\ ph = "weights" /\ ph' = "quota"
  /\ \E c \in {TLCEval([j \in 1..Len(g.es) |->
                 CASE g.cmode = "one" -> 1
                   [] g.cmode = "two" -> R({1, 2})
                   [] g.cmode = "zero" -> R(0..CMAX)
                   [] OTHER -> R(1..CMAX)])} :
     \E p \in {TLCEval([v \in 1..g.n |->
                 CASE g.pmode = "unit" -> 1
                   [] g.pmode = "rare" -> IF Coin(1, 3) THEN R(1..PMAX) ELSE 0
                   [] OTHER -> R(0..PMAX)])} :
     \E fl \in {TLCEval([j \in 1..Len(g.es) |-> R({0, 1})])} :
       g' = g @@ [prize |-> p,
                  edges |-> [j \in 1..Len(g.es) |->
                     IF fl[j] = 0 THEN <<g.es[j][1], g.es[j][2], c[j]>> ELSE <<g.es[j][2], g.es[j][1], c[j]>>]]

Quota ==
  /\ ph = "quota" /\ ph' = "labels"
  /\ LET tot == SumN(g.prize)
         tp == SumN([j \in 1..(IF Len(g.tour) = 0 THEN 0 ELSE Len(g.tour) - 1) |-> g.prize[g.tour[j] + 1]])
     IN \E q \in {TLCEval(CASE Coin(1, 2) -> R(0..(tp)) [] Coin(1, 3) -> tp [] OTHER -> R(0..(tot + 1)))} :
          g' = g @@ [quota |-> q]

Labels ==
  /\ ph = "labels" /\ ph' = "opts"
  /\ \E m \in {TLCEval(R({"id", "id", "shift", "mix"}))} :
     \E s \in {TLCEval(Shuffle(0..(2 * g.n)))} :
       g' = g @@ [label |-> [v \in 1..g.n |-> CASE m = "id" -> v - 1 [] m = "shift" -> v + 9 [] OTHER -> s[v]]]

Options ==
  /\ ph = "opts" /\ ph' = "done"
  /\ \E o \in {TLCEval(Opts(g))} :
       g' = [n |-> g.n, root |-> g.root, quota |-> g.quota, prize |-> g.prize, edges |-> g.edges,
             label |-> g.label, tour |-> g.tour] @@ o

GenNext == Shape \/ Tree \/ Cycle \/ Edges \/ Weights \/ Quota \/ Labels \/ Options

Emit == ph # "done" \/ PrintT("@@" \o ToJson(g))
=============================================================================
