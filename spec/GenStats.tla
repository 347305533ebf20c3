------------------------------ MODULE GenStats ------------------------------
(* Statistics to be written to files: summaries, node records, bounds.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES ph, g
R(S) == IF ph = "never" THEN CHOOSE x \in S : TRUE ELSE RandomElement(S)
N == TLCEval(R({0, 1, 2, 3, 5, 7, 12, 100, 4096, 65537, 999999, 2000000}))
Sum == [status |-> TLCEval(R(0..15)), lb |-> TLCEval(R({0, 1, 3, 8, 20, 1237, 800000, 999999999})), ub |-> TLCEval(R({0, 2, 5, 8, 21, 1241, 800008, 1000000007})),
        ccdp |-> N, ccsp |-> N, predp |-> N, presp |-> N, cyc |-> N, nodes |-> N, dt |-> N, mf |-> N]
S == TLCEval(R({0, 1, 7, 59, 100, 250, 999, 12345, 99999}))
\* bounds, in eighths
B == LET c == TLCEval(R(1..4)) IN CASE c = 1 -> 8 * TLCEval(R(-5..99999)) [] c = 2 -> 8 * TLCEval(R(100000..200000000)) [] c = 3 -> TLCEval(R(0..800000)) [] OTHER -> TLCEval(R(0..2000000000))
Node == <<B, S, S, S, S, S, S, S, B>>
MS == TLCEval(R({0, 1, 7, 9, 10, 42, 99, 100, 101, 500, 999}))
Bound == LET a == MS b == MS IN
  <<TLCEval(R({0, 59, 86399, 86400, 951782399, 951782400, 1582934400, 1600000000, 1704067199, 1709164800}) ), IF a < b THEN a ELSE b, IF a < b THEN b ELSE a,
    B, B, S>>
GenInit == ph = "go" /\ g = [id |-> 0]
GenNext == /\ ph = "go" /\ ph' = "done"
           /\ \E a \in {TLCEval(Sum)} : \E m \in {TLCEval(R(0..4))} : \E k \in {TLCEval(R(0..4))} : \E o \in {TLCEval(R({TRUE, FALSE}))} :
              \E b \in {TLCEval([x \in 1..m |-> Node])} : \E c \in {TLCEval([x \in 1..k |-> Bound])} :
                g' = [st |-> a, old |-> o, nodes |-> b, bounds |-> c]
Emit == ph # "done" \/ PrintT("@@" \o ToJson(g))
=============================================================================
