------------------------------ MODULE Branching ------------------------------
(* Choosing a branching strategy as a machine over the solver's rules: which rule
   is tried first, and to which depth full strong branching is used (-1: any).
     0  reliability branching first
     1  full strong branching first, at every depth, then reliability branching
     2  the same, with full strong branching down to a depth only
     4  everything stays as it was
   The rules of the real solver, after every call, must agree with the machine's. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, j, first, second, depth

Recs == ndJsonDeserialize(IOEnv.VP_RECS)
NR == Len(Recs)
R(k) == Recs[k]
Has(r, f) == f \in DOMAIN r
Bad(k, why) == PrintT("@@" \o ToJson([bad |-> k, why |-> why]))
Seen(k) == PrintT("@@" \o ToJson([seen |-> k]))
Err(k) == Has(R(k), "err")

Names(rules) == {rules[x].name : x \in DOMAIN rules}
Rule(rules, n) == rules[CHOOSE x \in DOMAIN rules : rules[x].name = n]
Pri(rules, n) == Rule(rules, n).pri
Top(rules, n) == n \in Names(rules) /\ \A m \in Names(rules) \ {n} : Pri(rules, n) > Pri(rules, m)
Next2(rules, n, t) == n \in Names(rules) /\ \A m \in Names(rules) \ {n, t} : Pri(rules, n) > Pri(rules, m)
TopOf(rules) == IF \E n \in Names(rules) : Top(rules, n) THEN CHOOSE n \in Names(rules) : Top(rules, n) ELSE "?"
Strong == "fullstrong"
Rel == "relpscost"

Calls(k) == IF Has(R(k), "calls") THEN R(k).calls ELSE << <<R(k).strat, R(k).depth>> >>
After(k) == IF Has(R(k), "calls") THEN R(k).after ELSE <<R(k).rules>>
Before(k) == IF Has(R(k), "calls") THEN R(k).before ELSE <<>>
Codes == [RELPSCOST |-> 0, STRONG |-> 1, STRONG_AT_TREE_TOP |-> 2, DEFAULT |-> 4]

Init == /\ i \in 1..NR /\ j = 0
        /\ first = IF Err(i) THEN "?" ELSE TopOf(Before(i))
        /\ second = "" /\ depth = IF Err(i) \/ Before(i) = <<>> THEN -1 ELSE Rule(Before(i), Strong).depth
Call == /\ ~Err(i) /\ j < Len(Calls(i)) /\ j' = j + 1 /\ UNCHANGED i
        /\ LET c == Calls(i)[j + 1][1] d == Calls(i)[j + 1][2] IN
           CASE c = 0 -> first' = Rel /\ second' = "" /\ UNCHANGED depth
             [] c = 1 -> first' = Strong /\ second' = Rel /\ depth' = -1
             [] c = 2 -> first' = Strong /\ second' = Rel /\ depth' = IF d < 0 THEN -1 ELSE d
             [] OTHER -> UNCHANGED <<first, second, depth>>
        /\ LET r == After(i)[j + 1] IN
           IF first' # "?" /\ ~Top(r, first') THEN Bad(i, "the rule that is tried first is not the strategy's")
           ELSE IF second' # "" /\ ~Next2(r, second', first') THEN Bad(i, "the rule that is tried second is not the strategy's")
           ELSE IF first' = Strong /\ Rule(r, Strong).depth # depth' THEN Bad(i, "full strong branching is not used to the depth asked for")
           ELSE IF first' = Rel /\ Rule(r, Rel).depth # -1 THEN Bad(i, "reliability branching is limited to a depth")
           ELSE TRUE
Finish == /\ (Err(i) \/ j = Len(Calls(i))) /\ j' = 1000 /\ UNCHANGED <<i, first, second, depth>>
          /\ IF Err(i) THEN Bad(i, "raised " \o R(i).err)
             ELSE IF Has(R(i), "codes") /\ \E c \in DOMAIN Codes : R(i).codes[c] # Codes[c] THEN Bad(i, "a branching code of the compiled code changed")
             ELSE IF Has(R(i), "pycodes") /\ \E c \in DOMAIN Codes : R(i).pycodes[c] # Codes[c] THEN Bad(i, "a branching code of the Python code differs")
             ELSE Seen(i)
Next == j < 1000 /\ (Call \/ Finish)
=============================================================================
