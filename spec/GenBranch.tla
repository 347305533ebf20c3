------------------------------ MODULE GenBranch ------------------------------
(* Histories of branching strategies chosen for one solver: <<code, depth>>, with
   depth -2 when none is given.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES ph, g
R(S) == IF ph = "never" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
GenInit == ph = "go" /\ g = [id |-> 0]
GenNext == /\ ph = "go" /\ ph' = "done"
           /\ \E m \in {TLCEval(R(1..5))} : \E s \in {TLCEval(R({TRUE, FALSE}))} :
              \E c \in {TLCEval([x \in 1..m |-> <<R({0, 1, 2, 2, 4}), R({-2, -1, 0, 1, 2, 5, 65534})>>])} : g' = [simple |-> s, calls |-> c]
Emit == ph # "done" \/ PrintT("@@" \o ToJson(g))
=============================================================================
