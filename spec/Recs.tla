-------------------------------- MODULE Recs --------------------------------
(* The records observed from the real code, and the instance each one carries.
   A record has: n, root, quota, prize (sequence, vertex v at index v+1) and
   edges (sequence of <<u, v, cost>>), also as the matrix w; vertices are
   0..n-1.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.VP_RECS)
NR == Len(Recs)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Rng(s) == {s[i] : i \in DOMAIN s}
Has(r, f) == f \in DOMAIN r
Verts(i) == 0 .. (Recs[i].n - 1)

(* the graph of a record: w[u+1][v+1] is the cost of the edge {u, v}, or -1 *)
IsEdge(i, u, v) == Recs[i].w[u + 1][v + 1] >= 0
Cost(i, u, v) == Recs[i].w[u + 1][v + 1]
Adj(i, v) == {w \in Verts(i) : IsEdge(i, v, w)}
Prize(i, v) == Recs[i].prize[v + 1]
PrizeOf(i, S) == SumOver([v \in S |-> Prize(i, v)], S)

(* a closed walk given as a sequence of vertices *)
IsWalk(i, t) == \A j \in 1..(Len(t) - 1) : IsEdge(i, t[j], t[j + 1])
WalkCost(i, t) == SumSeq([j \in 1..(Len(t) - 1) |-> Cost(i, t[j], t[j + 1])])
NoRepeat(s) == Cardinality(Rng(s)) = Len(s)
IsClosedTour(i, t) ==
  /\ Len(t) >= 4
  /\ \A j \in DOMAIN t : t[j] \in Verts(i)
  /\ t[1] = t[Len(t)]
  /\ NoRepeat(Tail(t))
  /\ IsWalk(i, t)

(* a tour given as a set of undirected edges (sequence of <<u, v>>) *)
Norm(e) == IF e[1] < e[2] THEN <<e[1], e[2]>> ELSE <<e[2], e[1]>>
EdgeVerts(es) == {es[j][1] : j \in DOMAIN es} \cup {es[j][2] : j \in DOMAIN es}
RECURSIVE Reach(_, _)
Reach(es, S) ==
  LET T == S \cup {es[j][1] : j \in {j \in DOMAIN es : es[j][2] \in S}}
             \cup {es[j][2] : j \in {j \in DOMAIN es : es[j][1] \in S}}
  IN IF T = S THEN S ELSE Reach(es, T)
IsEdgeTour(i, es, root) ==
  /\ Len(es) >= 3
  /\ \A j \in DOMAIN es : es[j][1] \in Verts(i) /\ es[j][2] \in Verts(i)
  /\ \A j \in DOMAIN es : IsEdge(i, es[j][1], es[j][2])
  /\ Cardinality({Norm(es[j]) : j \in DOMAIN es}) = Len(es)
  /\ \A v \in EdgeVerts(es) : Cardinality({j \in DOMAIN es : es[j][1] = v \/ es[j][2] = v}) = 2
  /\ root \in EdgeVerts(es)
  /\ Reach(es, {root}) = EdgeVerts(es)
EdgesCost(i, es) == SumSeq([j \in DOMAIN es |-> Cost(i, es[j][1], es[j][2])])

Bad(i, why) == PrintT("@@" \o ToJson([bad |-> i, why |-> why]))
Seen(i) == PrintT("@@" \o ToJson([seen |-> i]))
=============================================================================
