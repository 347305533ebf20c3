------------------------------ MODULE GenModel ------------------------------
(* Instances for the mathematical program: a tour to start from and 0/1 points
   (the edges and vertices that are switched on) near tours and near mistakes. *)
EXTENDS GenBase

Nm(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
EdgeSet(h) == {Nm(h.edges[j][1], h.edges[j][2]) : j \in DOMAIN h.edges}
\* the edges of a closed vertex sequence
EdgesOf(t) == {Nm(t[j], t[j + 1]) : j \in 1..(Len(t) - 1)}
VertsOf(E) == {e[1] : e \in E} \cup {e[2] : e \in E}
Loops(S) == {<<v, v>> : v \in S}
IsCyc(h, t) == Len(t) >= 4 /\ EdgesOf(t) \subseteq EdgeSet(h)
\* a random closed sequence over a random part of S
RECURSIVE RandCyc(_, _, _)
RandCyc(h, S, tries) ==
  IF Cardinality(S) < 3 \/ tries = 0 THEN {}
  ELSE LET p == TLCEval(Shuffle(S)) m == TLCEval(R(3..Len(p)))
           t == TLCEval(SubSeq(p, 1, m) \o <<p[1]>>)
       IN IF IsCyc(h, t) THEN EdgesOf(t) ELSE RandCyc(h, S, tries - 1)
Full(E) == E \cup Loops(VertsOf(E))
Flip(P, x) == IF x \in P THEN P \ {x} ELSE P \cup {x}
Point(h, T) ==
  LET V == 0..(h.n - 1) kind == TLCEval(R(1..10)) IN
  CASE kind <= 2 -> Full(T)
    [] kind = 3 -> Flip(Full(T), <<h.root, h.root>>)
    [] kind = 4 -> LET v == TLCEval(R(V)) IN Flip(Full(T), <<v, v>>)
    [] kind = 5 /\ h.edges # <<>> -> LET e == TLCEval(R(EdgeSet(h))) IN Flip(Full(T), e)
    [] kind = 6 -> Full(T) \cup Full(TLCEval(RandCyc(h, V \ VertsOf(T), 4)))
    [] kind = 7 -> Full(TLCEval(RandCyc(h, V, 4)))
    [] kind = 8 -> Full(TLCEval(RandCyc(h, V \ {h.root}, 4))) \cup Loops({h.root})
    [] kind = 9 -> LET C == TLCEval(RandCyc(h, V, 4)) IN Full(C) \cup Full(TLCEval(RandCyc(h, V \ VertsOf(C), 4)))
    [] OTHER -> {e \in EdgeSet(h) \cup Loops(V) : TLCEval(R(1..2)) = 1}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Tours(h) == {EdgesOf(h.tour)} \cup {TLCEval(RandCyc(h, 0..(h.n - 1), 3))}
\* the tour the solver is started from: none, the planted one, any cycle of the graph
RECURSIVE Walk(_, _)
Walk(h, tries) ==
  IF tries = 0 THEN <<>>
  ELSE LET p == TLCEval(Shuffle(0..(h.n - 1))) m == TLCEval(R(3..h.n)) t == TLCEval(SubSeq(p, 1, m) \o <<p[1]>>)
       IN IF IsCyc(h, t) THEN t ELSE Walk(h, tries - 1)
Heur(h) == LET c == TLCEval(R(1..6)) IN CASE c <= 3 -> h.tour [] c = 4 -> <<>> [] OTHER -> TLCEval(Walk(h, 3))
MyOpts(h) == LET hh == TLCEval(Heur(h)) IN
  [heur |-> hh, simple |-> TLCEval(Coin(1, 2)),
   points |-> TLCEval([k \in 1..12 |-> [on |-> ToSeq(TLCEval(Point(h, TLCEval(R(Tours(h))))))]])]
=============================================================================
