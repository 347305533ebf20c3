------------------------------- MODULE Search -------------------------------
(* Depth-limited breadth-first and depth-first search, subpaths of a cycle,
   connected components, filtered graphs, self-loop preparation.             *)
EXTENDS Recs

VARIABLES i, part
R(k) == Recs[k]
RECURSIVE Ball(_, _, _, _)
\* vertices within d hops of the set S, without entering M
Ball(k, S, M, d) == LET T == S \cup ((UNION {Adj(k, v) : v \in S}) \ M) IN IF d = 0 \/ T = S THEN S ELSE Ball(k, T, M, d - 1)
Hop(k, s, M, v) == CHOOSE d \in 0..(R(k).n) : v \in Ball(k, {s}, M, d) /\ (d = 0 \/ v \notin Ball(k, {s}, M, d - 1))
PathOk(k, p, s, v) == p # <<>> /\ p[1] = s /\ p[Len(p)] = v /\ NoRepeat(p) /\ IsWalk(k, p)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Front(p) == SubSeq(p, 1, Len(p) - 1)

JSearch(k) ==
  LET r == R(k) s == r.s B == Ball(k, {s}, {}, r.lim) M == Rng(r.mark) \ {s} C == Ball(k, {s}, M, r.n)
      D == {v \in Verts(k) : r.dm[v + 1]} dep(v) == Len(r.dpaths[v + 1]) - 1
  IN IF {v \in Verts(k) : r.bm[v + 1]} # B THEN "breadth-first search does not mark exactly the vertices within the depth limit"
     ELSE IF ~r.bself THEN "the source is not its own parent"
     ELSE IF \E v \in B : ~(PathOk(k, r.bpaths[v + 1], s, v) /\ Len(r.bpaths[v + 1]) - 1 = Hop(k, s, {}, v)) THEN "a breadth-first tree path is not a path with fewest edges"
     ELSE IF s \notin D THEN "depth-first search does not mark its source"
     ELSE IF \E v \in D : ~PathOk(k, r.dpaths[v + 1], s, v) \/ dep(v) > r.lim THEN "a depth-first tree path is not a path within the depth limit"
     ELSE IF \E v \in D : dep(v) > 0 /\ LET p == r.dpaths[v + 1] IN r.dpaths[p[Len(p) - 1] + 1] # Front(p) THEN "depth-first parents do not form a tree"
     ELSE IF \E v \in D : dep(v) < r.lim /\ ~(Adj(k, v) \subseteq D) THEN "depth-first search leaves a vertex within the depth limit unvisited"
     ELSE IF \E u \in D : \E v \in Adj(k, u) \cap D : dep(u) < r.lim /\ dep(v) < r.lim /\ ~IsPrefix(r.dpaths[u + 1], r.dpaths[v + 1]) /\ ~IsPrefix(r.dpaths[v + 1], r.dpaths[u + 1])
          THEN "an edge joins two branches of the depth-first tree"
     ELSE IF {v \in Verts(k) : r.mm[v + 1]} # C \cup M THEN "a search does not keep out of the vertices marked before it"
     ELSE IF \E v \in C : ~(PathOk(k, r.mpaths[v + 1], s, v) /\ Len(r.mpaths[v + 1]) - 1 = Hop(k, s, M, v)) THEN "a search path around marked vertices is not a path with fewest edges"
     ELSE ""

JSub(k) ==
  LET r == R(k) c == r.cyc L == Len(c) IN
  IF L < 2 THEN ""
  ELSE IF ~r.same THEN "taking a subpath changed the cycle"
  ELSE IF r.sub = (IF r.j >= r.i THEN SubSeq(c, r.i + 1, r.j + 1) ELSE SubSeq(c, r.i + 1, L) \o SubSeq(c, 2, r.j + 1)) THEN ""
  ELSE "the subpath of a cycle is not the vertices from start to end, going round once"

CutE(k) == {Norm(<<e[1], e[2]>>) : e \in {e \in Rng(R(k).edges) : R(k).col[e[1] + 1] = R(k).col[e[2] + 1]}}
RECURSIVE Up(_, _)
Up(m, S) == IF S = {} THEN <<>> ELSE IF m \in S THEN <<m>> \o Up(m + 1, S \ {m}) ELSE Up(m + 1, S)
JComp(k) ==
  LET r == R(k) cls(c) == {v \in Verts(k) : r.id[v + 1] = c} mk == Rng(r.mark) IN
  IF {Norm(e) : e \in Rng(r.cut)} # CutE(k) THEN "(the driver's graph is not the intended one)"
  ELSE IF Len(r.comp) # r.nk \/ \E c \in 0..(r.nk - 1) : r.comp[c + 1] # Up(0, cls(c)) THEN "the component vectors are not the classes of the component numbers"
  ELSE IF r.nonsing # SelectSeq(r.comp, LAMBDA c : Len(c) > 1) THEN "the non-singular components are not the components with more than one vertex"
  ELSE IF r.fv # Up(0, mk) THEN "the filtered graph does not have exactly the marked vertices"
  ELSE IF {Norm(e) : e \in Rng(r.fe)} # {Norm(<<e[1], e[2]>>) : e \in {e \in Rng(r.edges) : e[1] \in mk /\ e[2] \in mk}}
          \/ Len(r.fe) # Cardinality({Norm(e) : e \in Rng(r.fe)}) THEN "the filtered graph does not have exactly the edges between marked vertices"
  ELSE ""

Tag(es) == {<<Norm(<<e[1], e[2]>>), SubSeq(e, 3, Len(e))>> : e \in Rng(es)}
JPrep(k) ==
  LET r == R(k) L == Rng(r.loops) V == Verts(k)
      E == {<<Norm(<<e[1], e[2]>>), e[3]>> : e \in Rng(r.edges)}
      M == Len(r.edges) + Cardinality(L)
  IN IF r.has0 # (L = V) THEN "self loops on all vertices are not recognised"
     ELSE IF Len(r.e0) # M \/ Len(r.w0) # M \/ Len(r.e1) # M THEN "an edge got lost or was added"
     ELSE IF Tag(r.w0) # {<<x[1], <<0>>>> : x \in E} \cup {<<<<v, v>>, <<Prize(k, v)>>>> : v \in L}
          THEN "the weight of a self loop is not the prize of its vertex, or another edge has a weight"
     ELSE IF Tag(r.e1) # {<<x[1], <<x[2]>>>> : x \in E} \cup {<<<<v, v>>, <<0>>>> : v \in L}
          THEN "zeroing the self loops left a loop with a cost or changed another edge"
     ELSE IF ~r.has2 \/ r.nv # r.n THEN "adding self loops does not give every vertex one"
     ELSE IF Len(r.e2) # Len(r.edges) + r.n \/ Tag(r.e2) # {<<x[1], <<x[2], 0>>>> : x \in E} \cup {<<<<v, v>>, <<0, Prize(k, v)>>>> : v \in V}
          THEN "the graph prepared with self loops has wrong edges, costs or weights"
     ELSE ""
J(k) == IF Has(R(k), "err") THEN "raised " \o R(k).err
        ELSE IF Has(R(k), "bm") THEN JSearch(k) ELSE IF Has(R(k), "comp") THEN JComp(k)
        ELSE IF Has(R(k), "has0") THEN JPrep(k) ELSE IF Len(R(k).cyc) < 2 THEN "" ELSE JSub(k)
Init == i \in 1..NR /\ part = 0
Next == part = 0 /\ part' = 1 /\ UNCHANGED i
Report == IF part = 0 THEN Seen(i) ELSE LET j == J(i) IN j = "" \/ Bad(i, j)
=============================================================================
