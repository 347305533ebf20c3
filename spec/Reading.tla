------------------------------- MODULE Reading -------------------------------
(* Reading a solution back.  A reader goes over the variables of a point one at
   a time (an edge or the loop of a vertex) and keeps the vertices and edges
   that are positive beyond a numerical error, and whether everything was whole;
   what the code reports must be what the reader holds at the end.  A second
   reader goes over a list of variables that are asked for, in order, and stops
   at one that is not there.
   Records: points[p].val = <<u, v, x, tiny>> with x in units of 1/den; out[p];
   asks[a] = [es, pos, gone]; answers[a].                                      *)
EXTENDS Recs

VARIABLES i, what, p, j, vs, es, whole, st
vars == <<i, what, p, j, vs, es, whole, st>>

R(k) == Recs[k]
Err(k) == Has(R(k), "err")
Val == R(i).points[p].val
Items == IF what = "point" THEN Val ELSE R(i).asks[p].es
Gone == {Norm(R(i).asks[p].gone[x]) : x \in DOMAIN R(i).asks[p].gone}

Init ==
  /\ \E k \in 1..NR : i = k
  /\ \/ what = "none" /\ p = 0 /\ (Err(i) \/ R(i).points = <<>>)
     \/ what = "point" /\ ~Err(i) /\ p \in DOMAIN R(i).points
     \/ what = "ask" /\ ~Err(i) /\ p \in DOMAIN R(i).asks
  /\ j = 1 /\ vs = {} /\ es = <<>> /\ whole = TRUE /\ st = "read"

\* one value: an error far below the tolerance does not count
ReadValue ==
  /\ what = "point" /\ st = "read" /\ j <= Len(Items)
  /\ LET x == Items[j] pos == x[3] > 0 IN
       /\ vs' = IF pos /\ x[1] = x[2] THEN vs \cup {x[1]} ELSE vs
       /\ es' = IF pos /\ x[1] # x[2] THEN Append(es, Norm(x)) ELSE es
       /\ whole' = (whole /\ x[3] % R(i).den = 0)
  /\ j' = j + 1 /\ UNCHANGED <<i, what, p, st>>
LookUp ==
  /\ what = "ask" /\ st = "read" /\ j <= Len(Items)
  /\ IF Norm(Items[j]) \in Gone THEN st' = "missing" /\ UNCHANGED es
                                ELSE es' = Append(es, Norm(Items[j])) /\ UNCHANGED st
  /\ j' = j + 1 /\ UNCHANGED <<i, what, p, vs, whole>>

AllOf(s, S) == Len(s) = Cardinality(S) /\ {Norm(s[x]) : x \in DOMAIN s} = S
Positive == Rng(es) \cup {<<v, v>> : v \in vs}
Every == {Norm(R(i).edges[x]) : x \in DOMAIN R(i).edges} \cup {<<v, v>> : v \in Verts(i)}
Up(s) == \A x \in 1..(Len(s) - 1) : s[x] < s[x + 1]
PointWrong ==
  LET o == R(i).out[p] IN
  IF o.whole # whole THEN "a point is not called whole exactly when all its values are"
  ELSE IF Rng(o.verts) # vs \/ ~Up(o.verts) THEN "the vertices are not those with a positive value, in order"
  ELSE IF ~AllOf(o.es, Rng(es)) THEN "the edges are not those with a positive value, each once"
  ELSE IF o.pairs # o.es THEN "the pairs of vertices are not the ends of the edges"
  ELSE IF ~AllOf(o.sg, Rng(es)) THEN "the graph of the solution does not have its edges"
  ELSE IF ~AllOf(o.fg, Positive) \/ o.nfg # Cardinality(Positive) THEN "the support graph does not have the positive edges and loops"
  ELSE IF o.bare # "edge" THEN "a graph without loops is read"
  ELSE IF ~AllOf(R(i).all, Every) THEN "the pairs of a graph are not its edges and loops"
  ELSE ""
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "_" \o Joined(Tail(s))
NormAll(s) == [x \in DOMAIN s |-> Norm(s[x])]
AskWrong ==
  LET o == R(i).answers[p] q == R(i).asks[p] IN
  IF st = "missing" THEN (IF o.fails # "null" THEN "a missing variable is not reported" ELSE "")
  ELSE IF o.fails # "" THEN "looking up variables failed: " \o o.fails
  ELSE IF NormAll(o.got) # es THEN "the variables are not those of the edges asked for, in order"
  ELSE IF o.joined # Joined(o.names) THEN "the name of a list of variables is not its names joined"
  ELSE IF NormAll(o.mixed) # es THEN "the positive variables are not followed by the negative ones"
  ELSE IF o.coefs # [x \in DOMAIN es |-> IF x <= q.pos THEN 1 ELSE -1] THEN "the coefficients are not one for the positive and minus one for the negative variables"
  ELSE ""
Wrong == CASE what = "none" -> IF Err(i) THEN "raised " \o R(i).err ELSE ""
           [] what = "point" -> PointWrong
           [] what = "ask" -> AskWrong
Finish ==
  /\ st \in {"read", "missing"} /\ (st = "missing" \/ what = "none" \/ j > Len(Items))
  /\ IF Wrong = "" THEN Seen(i) ELSE Bad(i, Wrong)
  /\ st' = "done" /\ UNCHANGED <<i, what, p, j, vs, es, whole>>
Next == ReadValue \/ LookUp \/ Finish
=============================================================================
