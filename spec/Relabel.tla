------------------------------ MODULE Relabel ------------------------------
(* The design behind suurballe.py (Suurballe and Tarjan, 1984), explored on every
   small asymmetric digraph and with every shortest-path tree and tie: vertices
   are labelled one after the other; labelling v cuts the part of the tree that v
   is in into smaller parts, and every arc off the tree that leaves v or joins two
   of the new parts is processed once, because of v.

   lab   labelled vertices           d   tentative distances (reduced costs)
   p, q  the arc <<p, w>> that gave w its distance, and the vertex that caused it

   Variant plants one mistake: "any" (labels a vertex that is not nearest),
   "above" (the part above v is not cut off), "own" (arcs that leave v are not
   processed), "late" (the last arc counts, not the best).                     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Variant, N, COSTS

V == 0..(N - 1)
Src == 0
Inf == 1000
Pairs == {x \in V \X V : x[1] < x[2]}
\* what there is between two vertices: nothing, an arc up, an arc down
Ways(x) == {<<0, 0>>} \cup {<<1, c>> : c \in COSTS} \cup (IF x[1] = Src THEN {} ELSE {<<2, c>> : c \in COSTS})

VARIABLES cost, dist, par,            \* the world: arcs with costs, distances, tree
          lab, d, p, q, todo
world == <<cost, dist, par>>
vars == <<cost, dist, par, lab, d, p, q, todo>>

Arcs == DOMAIN cost
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Bf(_, _, _)
Bf(C, x, k) == IF k = 0 THEN x ELSE
  Bf(C, [v \in V |-> MinOf({x[v]} \cup {x[a[1]] + C[a] : a \in {a \in DOMAIN C : a[2] = v /\ x[a[1]] < Inf}})], k - 1)
Reached == {v \in V : dist[v] < Inf}
Red(a) == dist[a[1]] - dist[a[2]] + cost[a]
Tree == {<<par[v], v>> : v \in Reached \ {Src}}
RECURSIVE Up(_, _, _)
Up(f, v, k) == IF v = Src THEN TRUE ELSE k > 0 /\ Up(f, f[v], k - 1)
\* the parts of the tree without the vertices L
RECURSIVE Part(_, _)
Part(L, X) == LET Y == X \cup UNION {{a[1], a[2]} : a \in {a \in Tree : {a[1], a[2]} \cap L = {} /\ {a[1], a[2]} \cap X # {}}} IN
              IF X = Y THEN X ELSE Part(L, Y)

Graph(f) == LET A == {x \in Pairs : f[x][1] > 0} IN
  [a \in {IF f[x][1] = 1 THEN x ELSE <<x[2], x[1]>> : x \in A} |-> IF a[1] < a[2] THEN f[a][2] ELSE f[<<a[2], a[1]>>][2]]
RECURSIVE Choices(_)
Choices(S) == IF S = {} THEN {<<>>} ELSE LET x == CHOOSE x \in S : TRUE IN {(x :> w) @@ f : w \in Ways(x), f \in Choices(S \ {x})}
Init ==
  /\ cost \in {TLCEval(Graph(f)) : f \in Choices(Pairs)}
  /\ dist = TLCEval(Bf(cost, [v \in V |-> IF v = Src THEN 0 ELSE Inf], N))
  /\ par \in {f \in [Reached \ {Src} -> Reached] :
                /\ \A v \in DOMAIN f : <<f[v], v>> \in Arcs /\ dist[f[v]] + cost[<<f[v], v>>] = dist[v]
                /\ \A v \in DOMAIN f : Up(f, v, N)}
  /\ lab = {} /\ d = [v \in V |-> IF v = Src THEN 0 ELSE Inf]
  /\ p = [v \in V |-> -1] /\ q = [v \in V |-> -1]
  /\ todo = {a \in Arcs : a[1] \in Reached} \ Tree

Open == {v \in Reached \ lab : d[v] < Inf}
Label(v) ==
  /\ v \in Open /\ (Variant = "any" \/ \A w \in Open : d[v] <= d[w])
  /\ lab' = lab \cup {v}
  /\ LET old == Part(lab, {v})
         parts == {Part(lab', {w}) : w \in old \ {v}}
         joins == {a \in todo : (a[1] = v /\ Variant # "own") \/ a[2] = v
                     \/ (/\ a[1] \in old /\ a[2] \in old \ {v} /\ a[1] # v /\ a[2] \notin Part(lab', {a[1]})
                         /\ (Variant # "above" \/ v \notin DOMAIN par \/ par[v] \in lab \/ par[v] \notin Part(lab', {a[1]}) \cup Part(lab', {a[2]})))}
         new(w) == {d[v] + Red(a) : a \in {a \in joins : a[2] = w}}
         better == {w \in Reached \ lab' : new(w) # {} /\ MinOf(new(w)) < d[w]}
         cand(w) == {a \in joins : a[2] = w /\ (Variant = "late" \/ d[v] + Red(a) = MinOf(new(w)))} IN
     \E pick \in {f \in [better -> joins] : \A w \in better : f[w] \in cand(w)} :
       /\ d' = [w \in V |-> IF w \in better THEN d[v] + Red(pick[w]) ELSE d[w]]
       /\ p' = [w \in V |-> IF w \in better THEN pick[w][1] ELSE p[w]]
       /\ q' = [w \in V |-> IF w \in better THEN v ELSE q[w]]
       /\ todo' = todo \ joins
  /\ UNCHANGED world
Next == \E v \in V : Label(v)

(* ---- reading off the two paths *)
RECURSIVE Marks(_, _)
Marks(x, m) == IF x = Src \/ x \in m \/ x = -1 THEN m ELSE Marks(IF q[x] = x THEN Src ELSE q[x], m \cup {x})
RECURSIVE Walk(_, _, _)
\* from x back to the source: <<arcs, marks that are left>>
Walk(x, m, A) == IF x = Src \/ Cardinality(A) > N THEN <<A, m>>
                 ELSE IF x \in m THEN Walk(p[x], m \ {x}, A \cup {<<p[x], x>>})
                 ELSE Walk(par[x], m, A \cup {<<par[x], x>>})
RECURSIVE Sum(_)
Sum(A) == IF A = {} THEN 0 ELSE LET a == CHOOSE a \in A : TRUE IN cost[a] + Sum(A \ {a})

(* ---- the cheapest pair, by looking at all of them *)
RECURSIVE Paths(_, _)
Paths(S, t) == UNION {IF s[Len(s)] = t THEN {s} ELSE Paths({s \o <<a[2]>> : a \in {a \in Arcs : a[1] = s[Len(s)] /\ \A x \in DOMAIN s : s[x] # a[2]}}, t) : s \in S}
ArcsOf(s) == {<<s[x], s[x + 1]>> : x \in 1..(Len(s) - 1)}
PairsTo(t) == LET P == Paths({<<Src>>}, t) IN {Sum(ArcsOf(s)) + Sum(ArcsOf(r)) : <<s, r>> \in {x \in P \X P : ArcsOf(x[1]) \cap ArcsOf(x[2]) = {}}}

Ended == Open = {}
Found == Ended => \A t \in V \ {Src} : LET S == PairsTo(t) IN
  /\ (t \in lab) = (S # {})
  /\ t \in lab => /\ 2 * dist[t] + d[t] = MinOf(S)
                  /\ LET w == Walk(t, Marks(t, {}), {}) x == Walk(t, w[2], {}) IN
                     w[1] \cap x[1] = {} /\ w[1] \cup x[1] \subseteq Arcs /\ Sum(w[1]) + Sum(x[1]) = MinOf(S)
\* labels are given in the order of distances, and never change again
Settled == [][\A v \in lab : d'[v] = d[v]]_vars
=============================================================================
