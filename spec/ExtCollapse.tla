----------------------------- MODULE ExtCollapse -----------------------------
(* Path extension & collapse, composed of the heuristics it is made of:
   extend a tour below the quota with steps 1..s until it is feasible (give up
   with an empty tour if that fails), collapse, and then for every step
   1..s extend and collapse the best tour so far, keeping the cheaper one.
   The component results come from the recorded calls of the components
   themselves (which the other specifications judge).                       *)
EXTENDS Tours

VARIABLES i, ph, t, step, best
vars == <<i, ph, t, step, best>>

Call(k, f, s, x) == {c \in Rng(R(k).calls) : c.f = f /\ c.s = s /\ c.x = x}
Feasible(k, x) == TourPrize(k, x) >= R(k).quota

Init == i \in 1..NR /\ ph = "start" /\ t = <<>> /\ step = 0 /\ best = <<>>
Fail == ph = "start" /\ Has(R(i), "err") /\ ph' = "err" /\ UNCHANGED <<i, t, step, best>>
Begin == /\ ph = "start" /\ ~Has(R(i), "err") /\ t' = R(i).tour /\ step' = 1 /\ UNCHANGED <<i, best>>
         /\ ph' = IF Feasible(i, R(i).tour) THEN "collapse" ELSE "until"
Until == /\ ph = "until" /\ UNCHANGED <<i, best>>
         /\ IF step > R(i).step THEN ph' = "none" /\ UNCHANGED <<t, step>>
            ELSE \E c \in Call(i, "puntil", step, t) :
              /\ t' = c.y
              /\ IF Feasible(i, c.y) THEN ph' = "collapse" /\ step' = 1 ELSE ph' = "until" /\ step' = step + 1
Coll == /\ ph = "collapse" /\ UNCHANGED i
        /\ \E c \in Call(i, "collapse", 0, t) : best' = c.y /\ t' = c.y
        /\ step' = 1 /\ ph' = "extend"
Ext == /\ ph = "extend" /\ step <= R(i).step /\ UNCHANGED <<i, best, step>> /\ ph' = "again"
       /\ \E c \in Call(i, "path", step, t) : t' = c.y
Again == /\ ph = "again" /\ UNCHANGED i /\ ph' = "extend" /\ step' = step + 1
         /\ \E c \in Call(i, "collapse", 0, t) :
              best' = (IF WalkCost(i, c.y) < WalkCost(i, best) THEN c.y ELSE best)
         /\ t' = best'
Stop == ph = "extend" /\ step > R(i).step /\ ph' = "some" /\ UNCHANGED <<i, t, step, best>>
Next == Fail \/ Begin \/ Until \/ Coll \/ Ext \/ Again \/ Stop

Judge(k) ==
  LET r == R(k).res IN
  IF r = <<>> THEN (IF Feasible(k, R(k).tour) THEN "gave up although the given tour is feasible" ELSE "")
  ELSE IF ~IsTour(k, r) THEN "the result is not a simple closed tour of the graph"
  ELSE IF r[1] # R(k).root THEN "the result does not start at the root"
  ELSE IF ~Feasible(k, r) THEN "the result does not meet the quota"
  ELSE IF Feasible(k, R(k).tour) /\ WalkCost(k, r) > WalkCost(k, R(k).tour) THEN "the result costs more than the feasible tour it was given"
  ELSE ""
Report ==
  CASE ph = "err" -> Bad(i, "raised " \o R(i).err)
    [] ph \in {"collapse", "until"} /\ step = 1 /\ t = R(i).tour -> LET j == Judge(i) IN j = "" \/ Bad(i, j)
    [] ph = "none" -> R(i).res # <<>> \/ Seen(i)
    [] ph = "some" -> R(i).res # best \/ Seen(i)
    [] OTHER -> TRUE
=============================================================================
