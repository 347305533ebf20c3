--------------------------------- MODULE Lab ---------------------------------
(* The laboratory: experiments (two names sharing the same vials) and what is
   on disk for each vial.

   state   st[e][v]   "none" | "ok" | "torn"      the result file of vial v
           out[v]     "?" | "ok" | "fail"         what running v comes to
           res[v]     the result of v, once it has one
           ef[e][m]   the vials of the experiment file (m: the missing_ one)
   A step is one operation of the recorded history; it is taken only with the
   answer and the disk state that the operation must have.  An interrupted run
   may have completed any prefix of its vials.                               *)
EXTENDS Recs

VARIABLES i, j, st, out, res, ef, bad
vars == <<i, j, st, out, res, ef, bad>>
Rc == Recs[i]
NV == Len(Rc.vials)
Vs == 1..NV
All == [v \in Vs |-> v]
None == [uuid |-> 0]

\* ---------------------------------------------------------------- one vial
V(v) == Rc.vials[v]
VCost(v, a, b) == V(v).aw[a + 1][b + 1]
RECURSIVE Spread(_, _, _)
Spread(v, S, X) == LET T == S \cup {b \in 0..(Rc.n - 1) : b \notin X /\ \E a \in S : VCost(v, a, b) >= 0}
                   IN IF T = S THEN S ELSE Spread(v, T, X)
\* the root lies on a cycle of the graph of the vial
OnCycle(v) == LET r == V(v).root nb == {b \in 0..(Rc.n - 1) : b # r /\ VCost(v, r, b) >= 0}
              IN \E a \in nb : \E b \in nb : a # b /\ b \in Spread(v, {a}, {r})
\* what running the vial must come to: a failure of one kind, a result, or (a
\* root on no cycle) whichever it is, but the same every time
Due(v) == CASE V(v).stop # "" -> "stop"
            [] V(v).kind \in {"noroot", "cutoff", "relax"} -> "fail"
            [] OnCycle(v) -> "ok"
            [] OTHER -> "?"
VTour(v, es) == /\ Len(es) >= 3
                /\ \A x \in DOMAIN es : es[x][1] \in 0..(Rc.n - 1) /\ es[x][2] \in 0..(Rc.n - 1)
                /\ \A x \in DOMAIN es : es[x][1] # es[x][2] /\ VCost(v, es[x][1], es[x][2]) >= 0
                /\ Cardinality({Norm(es[x]) : x \in DOMAIN es}) = Len(es)
                /\ \A y \in EdgeVerts(es) : Cardinality({x \in DOMAIN es : es[x][1] = y \/ es[x][2] = y}) = 2
                /\ V(v).root \in EdgeVerts(es) /\ Reach(es, {V(v).root}) = EdgeVerts(es)
VPrize(v, S) == SumOver([y \in S |-> V(v).prize[y + 1]], S)
WrongResult(v, x) ==
  IF x.uuid # v THEN "a result under the name of another vial"
  ELSE IF x.edges = <<>> THEN (IF x.objective = 0 /\ x.prize = 0 THEN "" ELSE "an empty tour with a cost or a prize")
  ELSE IF ~VTour(v, x.edges) THEN "the edges of a result are not a tour through the root in the graph that the vial describes"
  ELSE IF x.objective # SumSeq([y \in DOMAIN x.edges |-> VCost(v, x.edges[y][1], x.edges[y][2])]) THEN "the objective of a result is not the cost of its edges"
  ELSE IF x.prize # VPrize(v, EdgeVerts(x.edges)) THEN "the prize of a result is not the prize of its vertices"
  ELSE IF x.prize < V(v).quota THEN "Suurballe's heuristic returned a tour below the quota"
  ELSE IF ~x.times THEN "a result ends before it starts"
  ELSE ""

\* ---------------------------------------------------------------- histories
Ok(e) == SelectSeq(All, LAMBDA v : st[e][v] = "ok")
NotOk(e) == SelectSeq(All, LAMBDA v : st[e][v] # "ok")
Take(s, a, n) == SubSeq(s, a + 1, IF a + n > Len(s) THEN Len(s) ELSE a + n)
BatchList(o) == Take(IF o.only THEN NotOk(o.e) ELSE All, o.start, o.size)
\* the vials a run gets to before one whose data cannot be found
RECURSIVE Before(_)
Before(l) == IF l = <<>> THEN <<>> ELSE IF Due(Head(l)) = "stop" THEN <<>> ELSE <<Head(l)>> \o Before(Tail(l))
Stops(l) == \E x \in DOMAIN l : Due(l[x]) = "stop"
\* what running v comes to, learning it from the disk if nothing else says
Outc(b, e, v) == IF Due(v) # "?" THEN Due(v) ELSE IF out[v] # "?" THEN out[v] ELSE IF b.st[e][v] = "ok" THEN "ok" ELSE "fail"
After(b, e, l) == [v \in Vs |-> IF v \in Rng(l) /\ Outc(b, e, v) = "ok" THEN "ok" ELSE st[e][v]]
Uuids(l) == [x \in DOMAIN l |-> l[x].uuid]
Find(l, v) == l[CHOOSE x \in DOMAIN l : l[x].uuid = v]

\* returned results: one per vial that succeeds, in order
RunRet(b, e, l) == SelectSeq(Before(l), LAMBDA v : Outc(b, e, v) = "ok")
Raised(b) == IF Has(b, "err") THEN b.err ELSE ""
WrongRun(b, e, l) ==
  IF Stops(l) THEN (IF Raised(b) = V(l[Len(Before(l)) + 1]).stop THEN "" ELSE "data that cannot be loaded is not reported")
  ELSE IF Raised(b) # "" THEN "one vial stops the run of the others"
  ELSE IF Uuids(b.ret) # RunRet(b, e, l) THEN "the run does not return one result per vial that succeeds, in order"
  ELSE ""

Stp(o, b) == \* <<reason, new disk state of experiment o.e>>
  LET e == o.e IN
  CASE o.op = "run" -> <<WrongRun(b, e, All), After(b, e, Before(All))>>
    [] o.op = "list" -> <<WrongRun(b, e, o.list), After(b, e, Before(o.list))>>
    [] o.op = "batch" -> <<WrongRun(b, e, BatchList(o)), After(b, e, Before(BatchList(o)))>>
    [] o.op = "crash" ->
         LET B == Before(All) P == {p \in 0..Len(B) : After(b, e, SubSeq(B, 1, p)) = b.st[e]} IN
         IF Raised(b) # "KeyboardInterrupt" THEN <<WrongRun(b, e, All), After(b, e, B)>>
         ELSE IF P = {} THEN <<"an interrupted run leaves results that are not those of its first vials", b.st[e]>> ELSE <<"", b.st[e]>>
    [] o.op = "sweep" -> \* the batches one after another run every vial once
         IF \E v \in Vs : Due(v) = "stop" THEN <<"", b.st[e]>>
         ELSE <<IF Raised(b) # "" THEN "running the batches raised " \o Raised(b)
                ELSE IF b.n # (NV + o.size - 1) \div o.size THEN "wrong number of batches"
                ELSE IF Uuids(b.ret) # RunRet(b, e, All) THEN "the batches do not run every vial exactly once, in order" ELSE "", After(b, e, All)>>
    [] o.op = "tear" -> <<"", [st[e] EXCEPT ![o.v] = IF @ = "none" THEN "none" ELSE "torn"]>>
    [] o.op = "delete" -> <<"", [st[e] EXCEPT ![o.v] = "none"]>>
    [] o.op = "missing" -> <<IF Raised(b) # "" THEN "missing_vials raised " \o Raised(b)
                             ELSE IF b.ret # NotOk(e) THEN "the missing vials are not those without a readable result, in order" ELSE "", st[e]>>
    [] o.op = "infeasible" -> <<IF Raised(b) # "" THEN "infeasible_vials raised " \o Raised(b)
                                ELSE IF b.ret # SelectSeq(Ok(e), LAMBDA v : res[v].prize < V(v).quota) THEN "the infeasible vials are not those with a result below the quota, in order" ELSE "", st[e]>>
    [] o.op = "results" -> <<IF Raised(b) # "" THEN "read_results_from_file raised " \o Raised(b)
                             ELSE IF Uuids(b.ret) # Ok(e) THEN "the results read are not those of the vials with a readable result, in order" ELSE "", st[e]>>
    [] o.op = "wexp" -> <<IF Raised(b) # "" THEN "write_experiment_to_file raised " \o Raised(b) ELSE "", st[e]>>
    [] o.op = "rexp" -> <<IF ef[e][o.m].n = 0 THEN (IF Raised(b) = "FileNotFoundError" THEN "" ELSE "reading an experiment that was never written")
                          ELSE IF Raised(b) # "" THEN "read_experiment_from_file raised " \o Raised(b)
                          ELSE IF b.ret # ef[e][o.m].l \/ ~b.same THEN "the experiment read is not the one written last" ELSE "", st[e]>>
    [] o.op = "wres" -> <<IF Raised(b) # "" THEN "write_results_to_file raised " \o Raised(b)
                          ELSE IF Uuids(b.ret) # Ok(e) THEN "the results file does not hold the results written" ELSE "", st[e]>>

Rets(o, b) == IF Has(b, "ret") /\ o.op \in {"run", "list", "batch", "crash", "sweep", "results", "wres"} THEN b.ret ELSE <<>>
WrongValue(l) ==
  IF \E x \in DOMAIN l : l[x].uuid \notin Vs THEN "a result of an unknown vial"
  ELSE IF \E x \in DOMAIN l : WrongResult(l[x].uuid, l[x]) # "" THEN LET x == CHOOSE x \in DOMAIN l : WrongResult(l[x].uuid, l[x]) # "" IN WrongResult(l[x].uuid, l[x])
  ELSE IF \E x \in DOMAIN l : res[l[x].uuid] # None /\ [l[x] EXCEPT !.times = TRUE] # res[l[x].uuid] THEN "the result of a vial is not the same every time"
  ELSE ""

EmptyEf == [m \in BOOLEAN |-> [n |-> 0, l |-> <<>>]]
Init == /\ i \in 1..NR /\ j = 0 /\ bad = (IF Has(Recs[i], "err") THEN "raised " \o Recs[i].err ELSE "")
        /\ LET nv == Len(Recs[i].vials) IN
           /\ st = [e \in 1..2 |-> [v \in 1..nv |-> "none"]] /\ out = [v \in 1..nv |-> "?"] /\ res = [v \in 1..nv |-> None]
        /\ ef = [e \in 1..2 |-> EmptyEf]

Step ==
  /\ bad = "" /\ j < Len(Rc.ops) /\ j' = j + 1 /\ UNCHANGED i
  /\ LET o == Rc.ops[j + 1] b == Rc.obs[j + 1] s == Stp(o, b) l == Rets(o, b) disk == b.disk
         new == [st EXCEPT ![o.e] = s[2]] wv == WrongValue(l) wd == WrongValue(disk)
     IN /\ bad' = (IF s[1] # "" THEN s[1]
                   ELSE IF b.st # new THEN "after " \o o.op \o ", the results on disk are not those of the vials that were run"
                   ELSE IF wv # "" THEN wv ELSE IF wd # "" THEN "on disk: " \o wd ELSE "")
        /\ IF s[1] = "" /\ b.st = new /\ wv = "" /\ wd = ""
           THEN /\ st' = new
                /\ res' = [v \in Vs |-> IF res[v] # None THEN res[v] ELSE IF \E x \in DOMAIN disk : disk[x].uuid = v THEN [Find(disk, v) EXCEPT !.times = TRUE]
                                        ELSE IF \E x \in DOMAIN l : l[x].uuid = v THEN [Find(l, v) EXCEPT !.times = TRUE] ELSE None]
                /\ out' = [v \in Vs |-> IF out[v] # "?" THEN out[v]
                                        ELSE IF \E e \in 1..2 : new[e][v] = "ok" THEN "ok"
                                        ELSE IF o.op = "run" /\ v \in Rng(Before(All)) THEN "fail" ELSE "?"]
                /\ ef' = IF o.op = "wexp" THEN [ef EXCEPT ![o.e][o.m] = [n |-> 1, l |-> o.list]] ELSE ef
           ELSE UNCHANGED <<st, out, res, ef>>
Next == Step

Report == IF bad # "" THEN Bad(i, bad) ELSE IF j = Len(Rc.ops) THEN Seen(i) ELSE TRUE

\* the model on its own: nothing but an operation on an experiment touches it
Safe == \A e \in 1..2 : \A v \in Vs : st[e][v] # "ok" \/ res[v] # None
=============================================================================
