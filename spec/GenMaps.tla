------------------------------ MODULE GenMaps ------------------------------
(* Instances plus an arbitrary map of vertex-disjoint path pairs with costs, and
   one arbitrary pair of vertex sequences.                                     *)
EXTENDS GenBase

Split(r, v, s, a, b) == [v |-> v, p1 |-> <<r>> \o SubSeq(s, 1, a) \o <<v>>, p2 |-> <<r>> \o SubSeq(s, a + 1, b) \o <<v>>]
\* a proper pair, a pair that repeats vertices, or the degenerate pair of one edge
Entry(h, v) ==
  LET s == TLCEval(Shuffle((0..(h.n - 1)) \ {h.root, v}))
      b == TLCEval(IF Len(s) = 0 THEN 0 ELSE R(1..Len(s)))
      a == TLCEval(R(0..b))
      e == TLCEval(Split(h.root, v, s, a, b))
      c == TLCEval(R({3, 5, 5, 7, R(1..60)}))
  IN CASE Coin(1, 12) -> [v |-> v, p1 |-> <<h.root, v>>, p2 |-> <<h.root, v>>, c |-> c]
       [] Coin(1, 8) /\ a >= 1 -> [v |-> v, p1 |-> e.p1, p2 |-> <<h.root, s[1], v>>, c |-> c]
       [] OTHER -> [v |-> v, p1 |-> e.p1, p2 |-> e.p2, c |-> c]

RECURSIVE Mk(_, _)
Mk(h, keys) == IF keys = <<>> THEN <<>> ELSE <<TLCEval(Entry(h, Head(keys)))>> \o Mk(h, Tail(keys))

RandSeq(h) == LET m == R(0..4) IN [j \in 1..m |-> R(0..(h.n - 1))]
MyOpts(h) ==
  LET s == TLCEval(Shuffle(0..(h.n - 1))) m == TLCEval(R({0, 1, 1, 2, h.n, h.n, h.n})) keys == SubSeq(s, 1, IF m > h.n THEN h.n ELSE m)
  IN [pm |-> TLCEval(Mk(h, keys)), seed |-> TLCEval(R(0..5000)),
      q1 |-> TLCEval(RandSeq(h)), q2 |-> TLCEval(RandSeq(h)), link |-> TLCEval(Coin(2, 3))]
=============================================================================
