------------------------------- MODULE Logging -------------------------------
(* Log levels as a machine.  Compiled code: the last level that was set decides
   which severities are shown; levels of Python map to severities (50 fatal, 40
   error, 30 warning, 20 info, 10 debug, 0 trace, anything else info), one line
   per message.  Python: getting a logger by its name sets its level (info when
   none is given), and a message is shown on exactly one line of the logger's own
   if it is at least that level, however often the logger was got before.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Side      \* "compiled" or "python"
VARIABLES i, j, level       \* level: the severity in force; Python: levels by name
Recs == ndJsonDeserialize(IOEnv.VP_RECS)
NR == Len(Recs)
R(k) == Recs[k]
Has(r, f) == f \in DOMAIN r
Bad(k, why) == PrintT("@@" \o ToJson([bad |-> k, why |-> why]))
Seen(k) == PrintT("@@" \o ToJson([seen |-> k]))
Steps(k) == IF Side = "compiled" THEN R(k).steps ELSE R(k).psteps
Severity(x) == CASE x = 50 -> 5 [] x = 40 -> 4 [] x = 30 -> 3 [] x = 20 -> 2 [] x = 10 -> 1 [] x = 0 -> 0 [] OTHER -> 2
Shown(o, want) == o.lines = (IF want THEN 1 ELSE 0)
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 999
Init == i \in 1..NR /\ j = 0 /\ level = <<>>
Compiled(s, o) ==
  IF s[1] = "level" THEN /\ level' = ("all" :> Severity(s[2])) @@ level
                         /\ IF o.boost # Severity(s[2]) THEN Bad(i, "a Python level maps to the wrong severity") ELSE TRUE
  ELSE /\ UNCHANGED level
       /\ IF Shown(o, s[2] >= At(level, "all")) THEN TRUE ELSE Bad(i, "a message is hidden, or shown, against the level that was set last")
Python(s, o) ==
  IF s[1] = "get" THEN /\ level' = (s[2] :> (IF s[3] < 0 THEN 20 ELSE s[3])) @@ level
                       /\ IF o.name # s[2] THEN Bad(i, "the logger has another name") ELSE TRUE
  ELSE /\ UNCHANGED level
       /\ IF At(level, s[2]) = 999 THEN TRUE        \* no one got that logger yet
          ELSE IF Shown(o, s[3] >= At(level, s[2])) THEN TRUE
          ELSE Bad(i, "a message is not shown exactly once when its level is at least that of the logger")
Step == /\ ~Has(R(i), "err") /\ j < Len(Steps(i)) /\ j' = j + 1 /\ UNCHANGED i
        /\ IF Side = "compiled" THEN Compiled(Steps(i)[j + 1], R(i).out[j + 1]) ELSE Python(Steps(i)[j + 1], R(i).out[j + 1])
Finish == /\ (Has(R(i), "err") \/ j = Len(Steps(i))) /\ j' = 1000 /\ UNCHANGED <<i, level>>
          /\ IF Has(R(i), "err") THEN Bad(i, "raised " \o R(i).err) ELSE Seen(i)
Next == j < 1000 /\ (Step \/ Finish)
=============================================================================
