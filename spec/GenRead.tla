------------------------------- MODULE GenRead -------------------------------
(* Instances with points to be read back: 0/1 points near tours, points in
   quarters, arbitrary values (a few of them negative or above one), with tiny
   numerical errors; and lists of variables to be looked up, some of them gone. *)
EXTENDS GenCuts

Mess(h) == LET some == {e \in EdgeSet(h) \cup Loops(0..(h.n - 1)) : TLCEval(Coin(2, 3))} IN
          ToSeq({<<e[1], e[2], TLCEval(R({0, 0, 1, 2, 4, 4, 3, -1, 5, 8}))>> : e \in some})
Bits(h) == LET P == TLCEval(Point(h, TLCEval(R(Tours(h))))) IN ToSeq({<<e[1], e[2], 4>> : e \in P})
Clean(h) == LET k == TLCEval(R(1..4)) IN
  CASE k = 1 -> Mess(h) [] k = 2 /\ h.tour # <<>> -> Val(h, TLCEval(Frac(h))) [] OTHER -> Bits(h)
\* tiny errors: on values that are there and on zeros
Tiny(h, s, m) ==
  LET on == {<<s[j][1], s[j][2]>> : j \in DOMAIN s}
      off == (EdgeSet(h) \cup Loops(0..(h.n - 1))) \ on
  IN IF m = 0 THEN [j \in DOMAIN s |-> s[j] \o <<0>>]
     ELSE [j \in DOMAIN s |-> s[j] \o <<TLCEval(R({-3, 0, 3}))>>]
          \o ToSeq({<<e[1], e[2], 0, TLCEval(R({-3, 3}))>> : e \in {e \in off : TLCEval(Coin(1, 2))}})
Ask(h) ==
  LET all == TLCEval(Shuffle(EdgeSet(h) \cup Loops(0..(h.n - 1))))
      m == TLCEval(R(0..Len(all)))
      es == [j \in 1..m |-> IF TLCEval(Coin(1, 2)) THEN all[j] ELSE <<all[j][2], all[j][1]>>]
      dup == IF m > 0 /\ TLCEval(Coin(1, 5)) THEN <<es[TLCEval(R(1..m))]>> ELSE <<>>
  IN [es |-> es \o dup, pos |-> TLCEval(R(0..m)),
      gone |-> IF TLCEval(Coin(1, 3)) /\ m > 0 THEN <<all[TLCEval(R(1..Len(all)))]>> ELSE <<>>]
Opt4(h) == [den |-> Base, points |-> TLCEval([k \in 1..5 |-> [val |-> Tiny(h, TLCEval(Clean(h)), TLCEval(R({0, 1})))]]),
            asks |-> TLCEval([k \in 1..4 |-> TLCEval(Ask(h))])]
=============================================================================
