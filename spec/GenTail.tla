------------------------------- MODULE GenTail -------------------------------
(* Sequences of gaps (thousandths; -1: infinite), a window and a threshold.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES ph, g
R(S) == IF ph = "never" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
RECURSIVE Down(_, _)
Down(x, m) == IF m = 0 THEN <<>>
  ELSE <<x>> \o Down(TLCEval(IF x < 0 THEN R({-1, -1, 8000, 1500}) ELSE LET y == x - R({0, 0, 1, 9, 10, 11, 100, 512}) IN IF y < 0 THEN 0 ELSE y), m - 1)
GenInit == ph = "go" /\ g = [id |-> 0]
GenNext == /\ ph = "go" /\ ph' = "done"
           /\ \E m \in {TLCEval(R(0..12))} : \E x \in {TLCEval(R({-1, 0, 100, 1000, 7000}))} :
              \E s \in {TLCEval(Down(x, m))} : \E w \in {TLCEval(R({-1, 0, 1, 2, 2, 3, 3, 4, 5, 8}))} : \E t \in {TLCEval(R({0, 10, 10, 500, 512}))} :
                g' = [max |-> w, thr |-> t, gaps |-> s]
Emit == ph # "done" \/ PrintT("@@" \o ToJson(g))
=============================================================================
