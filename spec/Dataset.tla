------------------------------- MODULE Dataset -------------------------------
(* Statistics of an instance against the problem machine, and the file of a whole
   data set: one line for every instance of the grid, with that instance's
   statistics.  Ratios are in millionths.                                      *)
EXTENDS Recs
CONSTANT What      \* "one" or "whole"

VARIABLES i, bad
R(k) == Recs[k]
S == R(i).stats
Root == R(i).root
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
Max(X) == CHOOSE x \in X : \A y \in X : x >= y

(* ---- the tours the machine closes: their vertices and cost *)
RECURSIVE Closings(_, _, _)
Closings(cur, vis, c) ==
  (IF Cardinality(vis) >= 3 /\ IsEdge(i, cur, Root) THEN {<<vis, c + Cost(i, cur, Root)>>} ELSE {})
    \cup UNION {Closings(w, vis \cup {w}, c + Cost(i, cur, w)) : w \in Adj(i, cur) \ vis}
Least(T, v) == Min({t[2] : t \in {t \in T : v \in t[1]}})
Prizes(T, v) == {PrizeOf(i, t[1]) : t \in {t \in T : v \in t[1] /\ t[2] = Least(T, v)}}

(* ---- metricness of the subgraph on a set of vertices *)
INFTY == 1000000
RECURSIVE Relax(_, _)
Relax(X, d) == LET nd == [p \in X \X X |-> Min({d[p]} \cup {d[<<p[1], x>>] + Cost(i, x, p[2]) : x \in {x \in X : IsEdge(i, x, p[2])}})]
               IN IF nd = d THEN d ELSE Relax(X, nd)
Links(X) == {p \in X \X X : p[1] < p[2] /\ IsEdge(i, p[1], p[2])}
Near(got, num, den) == (got * den - num * 1000000) \in (0 - den)..den
Metric(X, got) ==
  LET d == TLCEval(Relax(X, [p \in X \X X |-> IF p[1] = p[2] THEN 0 ELSE INFTY]))
      m == Cardinality({p \in Links(X) : Cost(i, p[1], p[2]) <= d[p]})
  IN Near(got, m - Cardinality(X) + 1, Cardinality(Links(X)) - Cardinality(X) + 1)
RECURSIVE Cl(_)
Cl(X) == LET T == X \cup UNION {Adj(i, v) : v \in X} IN IF X = T THEN X ELSE Cl(T)
Comps == {Cl({v}) : v \in Verts(i)}
Largest == {C \in Comps : \A X \in Comps : Cardinality(X) <= Cardinality(C)}
CostOf(X) == SumOver([p \in Links(X) |-> Cost(i, p[1], p[2])], Links(X))
LoopsIn(X) == Cardinality({v \in X : v \in Rng(R(i).loops)})

One ==
  LET T == TLCEval(Closings(Root, {Root}, 0)) on == TLCEval(UNION {t[1] : t \in T}) B == S.biggest_disjoint_prize
      P == TLCEval([v \in on \ {Root} |-> Prizes(T, v)]) all == TLCEval(PrizeOf(i, Verts(i))) IN
  IF ~R(i).same THEN "the statistics change the graph"
  ELSE IF S.num_nodes # R(i).n \/ S.num_edges # Cardinality(Links(Verts(i))) + Len(R(i).loops) THEN "wrong number of vertices or edges"
  ELSE IF S.total_cost # CostOf(Verts(i)) \/ S.total_prize # all THEN "wrong total cost or prize"
  ELSE IF ~(\E C \in Largest : Metric(C, S.metricness)) THEN "wrong metricness"
  ELSE IF ~(\E v \in DOMAIN P : B \in P[v]) \/ (\E v \in DOMAIN P : Min(P[v]) > B) THEN "the biggest prize of disjoint paths is not that of a least-cost pair, or not the biggest"
  ELSE IF ~Near(S.disjoint_prize_ratio, B, all) THEN "the ratio of the disjoint prize is not that of the biggest one to the total"
  ELSE IF S.max_disjoint_paths_cost # Max({Least(T, v) : v \in DOMAIN P}) THEN "the greatest cost of disjoint paths is wrong"
  ELSE IF S.preprocessed_num_nodes # Cardinality(on) \/ S.preprocessed_num_edges # Cardinality(Links(on)) + LoopsIn(on) THEN "wrong number of vertices or edges after preprocessing"
  ELSE IF S.preprocessed_total_cost # CostOf(on) \/ S.preprocessed_total_prize # PrizeOf(i, on) THEN "wrong total cost or prize after preprocessing"
  ELSE IF ~Metric(on, S.preprocessed_metricness) THEN "wrong metricness after preprocessing"
  ELSE IF ~Near(S.preprocessed_prize_ratio, PrizeOf(i, on), all) THEN "the ratio of the prize after preprocessing is not that to the total"
  ELSE ""

(* ---- whole data sets: the lines are the product of the lists, in order *)
RECURSIVE Product(_)
Product(ls) == IF ls = <<>> THEN << <<>> >>
  ELSE LET rest == Product(Tail(ls)) l == Head(ls) m == Len(rest) IN
       [x \in 1..(Len(l) * m) |-> <<l[(x - 1) \div m + 1]>> \o rest[((x - 1) % m) + 1]]
\* equally cheap pairs of paths may collect different prizes: which of them is found is open
Fixed(st) == [f \in DOMAIN st \ {"biggest_disjoint_prize", "disjoint_prize_ratio"} |-> st[f]]
Whole ==
  LET r == R(i) IN
  IF [x \in DOMAIN r.rows |-> r.rows[x].key] # Product(r.lists) THEN "the file does not have one line for every instance of the data set"
  ELSE IF \E x \in DOMAIN r.own : Fixed(r.rows[r.own[x].row].stats) # Fixed(r.own[x].stats) THEN "a line of the file does not have the statistics of its instance"
  ELSE IF \E x \in DOMAIN r.rows : LET st == r.rows[x].stats IN ~Near(st.disjoint_prize_ratio, st.biggest_disjoint_prize, st.total_prize) THEN "the ratio of the disjoint prize in a line is not that of its biggest one to its total"
  ELSE IF ~r.memory THEN "the table that is returned is not the file"
  ELSE ""
Init == i \in 1..NR /\ bad = "?"
Next == bad = "?" /\ bad' = (IF Has(R(i), "err") THEN "raised " \o R(i).err ELSE IF What = "one" THEN One ELSE Whole) /\ UNCHANGED i
Report == IF bad = "?" THEN TRUE ELSE IF bad = "" THEN Seen(i) ELSE Bad(i, bad)
=============================================================================
