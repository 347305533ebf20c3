------------------------------- MODULE GenLog --------------------------------
(* Histories of log levels and messages.  Compiled code: <<"level", x>> and
   <<"say", s>> with severity 0 (trace) to 5 (fatal).  Python: the logger's name
   and level, <<"get", name, level>> and <<"say", name, level>>.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES ph, g
R(S) == IF ph = "never" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
Level == TLCEval(R({0, 10, 20, 30, 40, 50, 50, 30, 5, 25, 35, 60, -10}))
Step == IF R(1..5) <= 2 THEN <<"level", Level>> ELSE <<"say", TLCEval(R(0..5))>>
Name == TLCEval(R({"a", "a.b", "tspwp", "c"}))
PLevel == TLCEval(R({10, 20, 20, 30, 40, 50}))
PStep == IF R(1..5) <= 2 THEN <<"get", Name, TLCEval(IF R(1..4) = 1 THEN -1 ELSE PLevel)>> ELSE <<"say", Name, PLevel>>
GenInit == ph = "go" /\ g = [id |-> 0]
GenNext == /\ ph = "go" /\ ph' = "done"
           /\ \E m \in {TLCEval(R(1..12))} : \E a \in {TLCEval([x \in 1..m |-> IF x = 1 THEN <<"level", Level>> ELSE Step])} :
              \E b \in {TLCEval([x \in 1..m |-> IF x = 1 THEN <<"get", Name, PLevel>> ELSE PStep])} : g' = [steps |-> a, psteps |-> b]
Emit == ph # "done" \/ PrintT("@@" \o ToJson(g))
=============================================================================
