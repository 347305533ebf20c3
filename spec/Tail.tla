-------------------------------- MODULE Tail --------------------------------
(* The window of gaps of one node: it holds the last max gaps, and the node tails
   off when it is full, holds at least two, and the gap fell by less than the
   threshold from its first to its last.  Thousandths; -1 is an infinite gap.  A
   fall of exactly the threshold is left open (the code computes with fractions). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, j, win
Recs == ndJsonDeserialize(IOEnv.VP_RECS)
NR == Len(Recs)
R(k) == Recs[k]
Has(r, f) == f \in DOMAIN r
Bad(k, why) == PrintT("@@" \o ToJson([bad |-> k, why |-> why]))
Seen(k) == PrintT("@@" \o ToJson([seen |-> k]))
Last(s, n) == IF n < 1 THEN <<>> ELSE IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Fall(w) == CASE w[1] < 0 /\ w[Len(w)] < 0 -> 0 [] w[1] < 0 -> 1000000 [] OTHER -> w[1] - w[Len(w)]
Full(k, w) == R(k).max >= 2 /\ Len(w) = R(k).max
Init == i \in 1..NR /\ j = 0 /\ win = <<>>
Push == /\ ~Has(R(i), "err") /\ j < Len(R(i).gaps) /\ j' = j + 1 /\ UNCHANGED i
        /\ win' = Last(Append(win, R(i).gaps[j + 1]), R(i).max)
        /\ LET o == R(i).out[j + 1] IN
           IF o.win # win' THEN Bad(i, "the window does not hold the last gaps")
           ELSE IF ~Full(i, win') THEN (IF o.off THEN Bad(i, "tails off before the window is full") ELSE TRUE)
           ELSE IF Fall(win') < R(i).thr /\ ~o.off THEN Bad(i, "a node that tails off is not noticed")
           ELSE IF Fall(win') > R(i).thr /\ o.off THEN Bad(i, "a node that still gains tails off")
           ELSE IF Fall(win') = 0 /\ R(i).thr = 0 /\ o.off THEN Bad(i, "a node tails off at threshold zero")
           ELSE TRUE
Finish == /\ (Has(R(i), "err") \/ j = Len(R(i).gaps)) /\ j' = 1000 /\ UNCHANGED <<i, win>>
          /\ IF Has(R(i), "err") THEN Bad(i, "raised " \o R(i).err) ELSE Seen(i)
Next == j < 1000 /\ (Push \/ Finish)
=============================================================================
