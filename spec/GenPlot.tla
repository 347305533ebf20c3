------------------------------- MODULE GenPlot -------------------------------
(* Graphs and tours to be drawn: places of the vertices (some share a row, a
   column or both), the order of the rows of the tables, names of their columns. *)
EXTENDS GenBase
MyOpts(h) ==
  [xy |-> TLCEval([v \in 1..h.n |-> <<R(-3..6), R(-3..6)>>]), order |-> TLCEval(IF Coin(1, 2) THEN [v \in 1..h.n |-> v - 1] ELSE Shuffle(0..(h.n - 1))),
   custom |-> Coin(1, 2), real |-> Coin(1, 2), colour |-> R({"red", "green", "#123456"})]
=============================================================================
