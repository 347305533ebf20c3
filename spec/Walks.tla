------------------------------- MODULE Walks -------------------------------
(* Walks, tours, edge sets and shortest paths of an undirected graph: what the
   C++ utilities answered against the definitions.                           *)
EXTENDS Recs

VARIABLES i, part
R(k) == Recs[k]
EdgesOf(k) == {Norm(<<R(k).edges[j][1], R(k).edges[j][2]>>) : j \in DOMAIN R(k).edges}
NormSeq(s) == [j \in DOMAIN s |-> Norm(s[j])]
Steps(w) == [j \in 1..(IF Len(w) = 0 THEN 0 ELSE Len(w) - 1) |-> Norm(<<w[j], w[j + 1]>>)]
PrizeSeq(k, s) == SumSeq([j \in DOMAIN s |-> Prize(k, s[j])])
IsW(k, w) == \A j \in 1..(Len(w) - 1) : IsEdge(k, w[j], w[j + 1])

(* turning a closed tour so that it starts at v *)
Turned(t, v) == IF t = <<>> THEN <<>>
                ELSE LET p == CHOOSE p \in DOMAIN t : t[p] = v /\ \A q \in DOMAIN t : t[q] = v => p <= q
                     IN SubSeq(t, p, Len(t)) \o SubSeq(t, 2, p)

JWalk(k) ==
  LET r == R(k) w == r.walk c == r.cyc IN
  IF r.reorder # Turned(c, r.root) THEN "reordering a tour from the root is not the tour turned to the root"
  ELSE IF ~r.same THEN "reordering changed the given tour"
  ELSE IF IsW(k, w) /\ ~(r.walkedges[1] /\ r.cost_list[1] /\ r.cost_vec[1] /\ r.cost_edges[1]) THEN "a walk of the graph was refused"
  ELSE IF ~IsW(k, w) /\ (r.walkedges[1] \/ r.cost_list[1] \/ r.cost_vec[1] \/ r.cost_edges[1])
       THEN "a sequence with a missing edge was not refused"
  ELSE IF IsW(k, w) /\ NormSeq(r.walkedges[2]) # Steps(w) THEN "the edges of a walk are not its steps"
  ELSE IF IsW(k, w) /\ (r.cost_list[2] # WalkCost(k, w) \/ r.cost_vec # r.cost_list \/ r.cost_edges[2] # <<r.cost_list[2], r.cost_list[2]>>)
       THEN "the total cost is not the sum over the steps"
  ELSE IF r.prize_list # PrizeSeq(k, w) \/ r.prize_vec # r.prize_list THEN "the total prize is not the sum over the walk"
  ELSE IF r.prize_graph # PrizeOf(k, Verts(k)) THEN "the total prize of the graph is not the sum over its vertices"
  ELSE IF c # <<>> /\ r.prize_tour # PrizeSeq(k, SubSeq(c, 1, Len(c) - 1)) THEN "the prize of a tour does not count its last vertex out"
  ELSE IF r.feas # (PrizeSeq(k, w) >= r.quota) THEN "prize feasibility is not prize >= quota"
  ELSE IF Len(w) >= 2 /\ \E v \in Verts(k) : r.internal[v + 1] # (v \in Rng(SubSeq(w, 2, Len(w) - 1)))
       THEN "a vertex is not recognised as internal to the walk (or wrongly so)"
  ELSE ""

(* edges and vertex sets *)
Loops(k) == Rng(R(k).loops)
Has2(k, u, v) == IF u = v THEN u \in Loops(k) ELSE IsEdge(k, u, v)
JEdges(k) ==
  LET r == R(k) ps == r.pairs ok == \A j \in DOMAIN ps : Has2(k, ps[j][1], ps[j][2])
      good == SelectSeq(ps, LAMBDA p : Has2(k, p[1], p[2]))
      allE == EdgesOf(k) \cup {<<v, v>> : v \in Loops(k)}
      S == Rng(r.sub)
  IN IF ok # r.ofpairs[1] THEN "a pair without an edge was accepted or a pair with an edge refused"
     ELSE IF ok /\ NormSeq(r.ofpairs[2]) # NormSeq(ps) THEN "the edges of vertex pairs are not those pairs"
     ELSE IF NormSeq(r.subset) # NormSeq(good) \/ NormSeq(r.subsetpairs) # NormSeq(good) THEN "edges do not map back to their vertex pairs"
     ELSE IF Rng(r.verts) # EdgeVerts(good) \/ Len(r.verts) # Cardinality(EdgeVerts(good)) THEN "the vertices of an edge set are not its end points, each once"
     ELSE IF Rng(NormSeq(r.all)) # allE \/ Len(r.all) # Cardinality(allE) \/ NormSeq(r.allpairs) # NormSeq(r.all) THEN "the edges of the graph are not listed each once"
     ELSE IF Rng(NormSeq(r.induced)) # {e \in EdgesOf(k) : e[1] \in S /\ e[2] \in S} \/ Len(r.induced) # Cardinality(Rng(NormSeq(r.induced)))
          THEN "the induced edges are not the edges inside the vertex set"
     ELSE IF ~r.same THEN "inducing edges changed the vertex set"
     ELSE IF (S \subseteq Loops(k)) # r.loopsok THEN "missing self loops were not refused, or present ones were"
     ELSE IF r.loopsok /\ r.selfloops # [j \in DOMAIN r.sub |-> <<r.sub[j], r.sub[j]>>] THEN "the self loops are not those of the vertices"
     ELSE IF NormSeq(r.added) # NormSeq(ps) THEN "the added edges are not the given pairs"
     ELSE ""

(* least cost of a path from s that enters no marked vertex *)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Settle(_, _, _, _)
Settle(k, M, d, rounds) ==
  LET e == [v \in Verts(k) |-> IF v \in M THEN d[v]
              ELSE Min({d[v]} \cup {d[u] + Cost(k, u, v) : u \in {u \in Adj(k, v) : d[u] < 1000000000}})]
  IN IF e = d \/ rounds = 0 THEN d ELSE Settle(k, M, e, rounds - 1)
JDijkstra(k) ==
  LET r == R(k) M == Rng(r.mark) \ {r.s}
      d == Settle(k, M, [v \in Verts(k) |-> IF v = r.s THEN 0 ELSE 1000000000], r.n + 1)
  IN IF r.found # (d[r.t] < 1000000000) THEN (IF r.found THEN "a path was found although every path meets a marked vertex" ELSE "no path was found although one avoids the marked vertices")
     ELSE IF ~r.found THEN ""
     ELSE IF r.dist # d[r.t] THEN "the distance is not the least cost of a path avoiding the marked vertices"
     ELSE IF r.path = <<>> \/ r.path[1] # r.s \/ r.path[Len(r.path)] # r.t \/ ~IsW(k, r.path) \/ Rng(r.path) \cap M # {} \/ ~NoRepeat(r.path)
          THEN "the shortest path is not a simple path of the graph avoiding the marked vertices"
     ELSE IF WalkCost(k, r.path) # r.dist THEN "the shortest path does not have the reported cost"
     ELSE ""

J(k) == IF Has(R(k), "err") THEN "raised " \o R(k).err
        ELSE IF Has(R(k), "reorder") THEN JWalk(k) ELSE IF Has(R(k), "ofpairs") THEN JEdges(k) ELSE JDijkstra(k)
Init == i \in 1..NR /\ part = 0
Next == part = 0 /\ part' = 1 /\ UNCHANGED i
Report == IF part = 0 THEN Seen(i) ELSE LET j == J(i) IN j = "" \/ Bad(i, j)
=============================================================================
