------------------------------ MODULE GenCxx ------------------------------
(* Instances with walks, cycles, marks, vertex subsets and edges of foreign
   vertices, for the graph utilities.                                       *)
EXTENDS GenBase

Nb(h, v) == {h.edges[j][1] : j \in {j \in DOMAIN h.edges : h.edges[j][2] = v}}
       \cup {h.edges[j][2] : j \in {j \in DOMAIN h.edges : h.edges[j][1] = v}}
RECURSIVE Amble(_, _, _)
Amble(h, v, m) == LET N == Nb(h, v) IN
  IF m = 0 \/ N = {} THEN <<v>> ELSE <<v>> \o Amble(h, TLCEval(R(N)), m - 1)
Verts(h) == 0..(h.n - 1)
Long(h) == 0..(IF h.n <= 15 THEN 6 ELSE 2 * h.n)      \* lengths of lists
AnyWalk(h) == LET m == R(Long(h)) IN
  CASE Coin(2, 3) -> Amble(h, R(Verts(h)), m)
    [] OTHER -> [j \in 1..m |-> R(Verts(h))]
\* a closed sequence with the root somewhere in it
Turn(t, p) == SubSeq(t, p, Len(t)) \o SubSeq(t, 2, p)
AnyCycle(h) ==
  CASE Coin(1, 10) -> <<>>
    [] Coin(1, 10) -> <<h.root>>
    [] Coin(1, 10) -> <<h.root, h.root>>
    [] OTHER -> LET s == TLCEval(Shuffle(Verts(h) \ {h.root})) m == TLCEval(R(0..Len(s))) t == <<h.root>> \o SubSeq(s, 1, m) \o <<h.root>>
                IN Turn(t, TLCEval(R(1..Len(t))))
Some(S) == {v \in S : Coin(1, 2)}
RECURSIVE ToSeq(_)
ToSeq(S) == Shuffle(S)
AnyPairs(h) == LET m == R(0..5) IN
  [j \in 1..m |-> IF Len(h.edges) > 0 /\ Coin(5, 6)
                  THEN LET e == h.edges[R(1..Len(h.edges))] IN IF Coin(1, 2) THEN <<e[1], e[2]>> ELSE <<e[2], e[1]>>
                  ELSE <<R(Verts(h)), R(Verts(h))>>]
Foreign(h) == LET k == R({1, 3, 10, 997}) o == R({0, 5, 100000}) IN [v \in 1..h.n |-> TLCEval(h.label[v] * k + o)]
MyOpts(h) ==
  LET c == TLCEval(AnyCycle(h)) f == TLCEval(Foreign(h)) s == TLCEval(R(Verts(h))) nl == TLCEval(R(Long(h))) nl2 == TLCEval(R(Long(h))) np == TLCEval(R(0..4))
      os == TLCEval([j \in 1..Len(h.edges) |-> <<f[h.edges[j][1] + 1], f[h.edges[j][2] + 1]>>])
      lo == TLCEval(IF Coin(1, 3) THEN Verts(h) ELSE IF Coin(1, 3) THEN {} ELSE Some(Verts(h)))
      zs == TLCEval(Shuffle(Some(Verts(h))))
      mk == TLCEval(IF Coin(1, 3) THEN {} ELSE Some(Verts(h)))
  IN [cyc |-> c, walk |-> TLCEval(AnyWalk(h)), mark |-> TLCEval(ToSeq(mk)),
      s |-> s, t |-> TLCEval(R(Verts(h))), lim |-> TLCEval(IF Coin(1, 3) THEN R(0..h.n) ELSE R({0, 1, 1, 2, 2, 3, 4, h.n + 1})),
      loops |-> TLCEval(ToSeq(lo)), sub |-> TLCEval(ToSeq(TLCEval(IF Coin(1, 2) THEN {v \in Verts(h) : v \in lo /\ Coin(1, 2)} ELSE Some(Verts(h))))),
      pairs |-> TLCEval(AnyPairs(h)),
      i |-> TLCEval(R(0..(IF Len(c) < 2 THEN 0 ELSE Len(c) - 1))), j |-> TLCEval(R(0..(IF Len(c) < 2 THEN 0 ELSE Len(c) - 1))),
      col |-> TLCEval([v \in 1..h.n |-> R(0..R({0, 1, 2, 3}))]),
      oes |-> os \o TLCEval([j \in 1..Len(zs) |-> <<f[zs[j] + 1], f[zs[j] + 1]>>]),
      ovs |-> TLCEval([x \in 1..nl |-> f[R(Verts(h)) + 1]]),
      ovs2 |-> TLCEval([x \in 1..nl2 |-> IF Coin(3, 4) THEN f[R(Verts(h)) + 1] ELSE 7000000 + R(0..2)]),
      pickn |-> TLCEval([x \in 1..np |-> R(Verts(h))])]
=============================================================================
