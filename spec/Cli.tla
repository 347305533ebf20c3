--------------------------------- MODULE Cli ---------------------------------
(* The commands of the application as transitions of what is on disk.

   slots   1..6: data set d (1 londonaq, 2 tspwplib) and experiment e (1 dryrun,
           2 cost_cover, 3 onerun)
   sl[s]   ex, mi   the experiment file and its missing_ twin: [on, l]
           ok, torn the vials with a readable / an unreadable result
           rj       the results file: [on, l]
           sc       the Slurm script: [on, b] with b the batches its array runs
   zp[s]   the archive of the experiment: [on, c] with c what it held
   nxt     the number of the next new vial
   (truth: what every vial comes to when it is run on its own elsewhere)

   Commands fail (and change nothing but what the specification says) when a file
   they read is not there.                                                     *)
EXTENDS Recs, Settings

VARIABLES i, j, sl, zp, nxt, bad
vars == <<i, j, sl, zp, nxt, bad>>
Rc == Recs[i]
NS == Len(Rc.vials)
Off == [on |-> FALSE, l |-> <<>>]
NoScript == [on |-> FALSE, b |-> <<>>, hours |-> 0]
Fresh == [ex |-> Off, mi |-> Off, ok |-> {}, torn |-> {}, rj |-> Off, sc |-> NoScript]
S(o) == (o.d - 1) * 3 + o.e
EName(e) == <<"dryrun", "cost_cover", "onerun", "simple_branch_cut", "londonaq_alpha">>[e]
DName(d) == <<"londonaq", "tspwplib">>[d]

\* ------------------------------------------------------------ running vials
Doomed(v) == v <= NS /\ Rc.vials[v].root > Rc.n
\* a vial comes to what it comes to on its own; one in no experiment of the data set cannot be run
Truth(v, s) == LET t == Rc.truth[(s - 1) \div 3 + 1] IN IF v \in DOMAIN t THEN t[v] ELSE "?"
Outc(v, ob, s) == IF v <= NS /\ Doomed(v) THEN "fail" ELSE IF Truth(v, s) # "?" THEN Truth(v, s) ELSE IF v \in ob[s].ok THEN "ok" ELSE "fail"
RunOk(l, ob, s) == {v \in Rng(l) : Outc(v, ob, s) = "ok"}
Ran(c, l, ob, s) == [c EXCEPT !.ok = @ \cup RunOk(l, ob, s), !.torn = @ \ RunOk(l, ob, s)]
Take(l, a, n) == SubSeq(l, a + 1, IF a + n > Len(l) THEN Len(l) ELSE a + n)
Missing(c, l) == SelectSeq(l, LAMBDA v : v \notin c.ok)
Batches(l, n) == (Len(l) + n - 1) \div n
Script(l, o) == [on |-> TRUE, hours |-> (LET h == (o.size * o.limit + 3599) \div 3600 + 1 IN IF h < 48 THEN h ELSE 48),
                 b |-> [k \in 1..Batches(l, o.size) |-> [d |-> DName(o.d), e |-> EName(o.e), start |-> (k - 1) * o.size, size |-> o.size, only |-> o.only, same |-> TRUE]]]

\* ------------------------------------------------------------ new experiments
New(n) == [k \in 1..n |-> nxt + k - 1]
\* what a command sets up for a single run
OneData(o) == IF o.d = 1
  THEN [dataset |-> "londonaq", cost_function |-> "EXPLICIT", graph_name |-> "laqtinyA", quota |-> (IF o.def THEN 200 ELSE o.quota), root |-> Rc.root,
        alpha |-> No, generation |-> "", kappa |-> No, triangle |-> No]
  ELSE [dataset |-> "tspwplib", cost_function |-> (IF o.def THEN "UNIFORM_RANDOM" ELSE o.cf), graph_name |-> (IF o.def THEN "eil76" ELSE "st70"),
        quota |-> ((IF o.def THEN 50 ELSE o.alpha) * SumSeq(Rc.prize)) \div 100, root |-> Rc.root + 1,
        alpha |-> (IF o.def THEN 50 ELSE o.alpha), generation |-> (IF o.def THEN "gen1" ELSE "gen2"), kappa |-> (IF o.def THEN No ELSE o.kappa), triangle |-> 0]
OneModel(o) ==
  LET x == o.alg \in Exact lim == IF o.def THEN FourHours ELSE o.limit
      p == IF ~x THEN Plain(o.alg)
           ELSE [Cuts(Plain(o.alg), lim) EXCEPT !.branching_strategy = 2, !.cost_cover_disjoint_paths = (IF o.def THEN 1 ELSE o.dp), !.cost_cover_shortest_path = (IF o.def THEN 0 ELSE o.sp),
                 !.branching_max_depth = (IF o.d = 1 \/ o.def THEN 1 ELSE o.bmax),
                 !.sec_max_tailing_off_iterations = (IF o.d = 1 THEN -1 ELSE IF o.def THEN 5 ELSE o.tail),
                 !.sec_lp_gap_improvement_threshold = (IF o.d = 1 \/ o.def THEN 1 ELSE o.gap),
                 !.heuristic = (IF o.d = 1 \/ o.def THEN "" ELSE o.heur)]
  IN IF o.d = 2 /\ "bfs_extension_collapse" \in {p.algorithm, p.heuristic}
     THEN [p EXCEPT !.collapse_paths = (IF o.def THEN 0 ELSE o.csp), !.path_depth_limit = (IF o.def THEN 2 ELSE o.depth), !.step_size = (IF o.def THEN 1 ELSE o.step)]
     ELSE p
OneConfig(o) == OneData(o) @@ OneModel(o) @@ Pre(0, IF o.def THEN 0 ELSE o.leaves, IF o.d = 1 THEN 1 ELSE 0)

\* ------------------------------------------------------------ commands
\* <<what is wrong with the answer, the slot afterwards>>
Err(b) == b.err
Need(b, cond, c, good) == IF cond THEN good ELSE <<IF Err(b) # "" THEN "" ELSE "a command did not fail without the file it reads", c>>
Fine(b, w, c) == <<IF Err(b) # "" THEN "a command raised " \o Err(b) ELSE w, c>>
Printed(b, l, what) == IF b.out = l THEN "" ELSE what

Stp(o, b, ob) ==
  LET s == S(o) c == sl[s] src == IF "only" \in DOMAIN o /\ o.only THEN c.mi ELSE c.ex IN
  CASE o.op = "seed" -> <<"", [c EXCEPT !.ex = [on |-> TRUE, l |-> o.l]]>>
    [] o.op = "wipe" -> <<"", Fresh>>
    [] o.op = "tear" -> <<"", IF o.v \in c.ok THEN [c EXCEPT !.ok = @ \ {o.v}, !.torn = @ \cup {o.v}] ELSE c>>
    [] o.op = "delete" -> <<"", [c EXCEPT !.ok = @ \ {o.v}, !.torn = @ \ {o.v}]>>
    [] o.op \in {"setup", "lab"} /\ o.e # 1 -> <<"", c>>     \* see Steps
    [] o.op = "setup" -> Fine(b, "", [c EXCEPT !.ex = [on |-> TRUE, l |-> New(3)]])
    [] o.op = "lab" -> LET l == New(3) d == Ran([c EXCEPT !.ex = [on |-> TRUE, l |-> l]], l, ob, s) IN
         Fine(b, "", [d EXCEPT !.rj = [on |-> TRUE, l |-> SelectSeq(l, LAMBDA v : v \in d.ok)]])
    [] o.op = "one" -> LET l == New(1) d == Ran([c EXCEPT !.ex = [on |-> TRUE, l |-> l]], l, ob, s) IN
         Fine(b, IF b.cfg # <<OneConfig(o)>> THEN "the vial of a single run does not have the settings of the command" ELSE "",
              [d EXCEPT !.rj = [on |-> TRUE, l |-> SelectSeq(l, LAMBDA v : v \in d.ok)]])
    [] o.op = "batch" -> Need(b, src.on, c, Fine(b, "", Ran(c, Take(src.l, o.start, o.size), ob, s)))
    [] o.op = "nbatches" -> IF o.size <= 0 THEN <<IF Err(b) # "" THEN "" ELSE "batches without vials are not refused", c>>
         ELSE Need(b, c.ex.on, c, Fine(b, Printed(b, <<Batches(c.ex.l, o.size)>>, "wrong number of batches"), c))
    [] o.op = "slurm" -> Need(b, src.on, c,
         IF c.sc.on /\ ~o.over THEN <<IF Err(b) # "" THEN "" ELSE "an existing Slurm script is overwritten without being asked to", c>>
         ELSE Fine(b, "", [c EXCEPT !.sc = Script(src.l, o)]))
    [] o.op = "missing" -> Need(b, c.ex.on, c, LET m == Missing(c, c.ex.l) IN
         Fine(b, Printed(b, m, "the vials printed are not the missing ones"), [c EXCEPT !.mi = [on |-> TRUE, l |-> m]]))
    [] o.op = "nmissing" -> Need(b, c.ex.on, c, Fine(b, Printed(b, <<Len(Missing(c, c.ex.l)), Len(c.ex.l)>>, "wrong number of missing vials"), c))
    [] o.op = "infeasible" -> Need(b, c.ex.on, c, Fine(b, Printed(b, SelectSeq(c.ex.l, LAMBDA v : v \in ob[s].low /\ v \in c.ok), "the vials printed are not the infeasible ones"), c))
    [] o.op = "vial" -> Need(b, c.ex.on, c,
         IF o.v \notin Rng(c.ex.l) THEN <<IF Err(b) # "" THEN "" ELSE "a vial that is not in the experiment is not refused", c>>
         ELSE LET d == Ran(c, <<o.v>>, ob, s) IN <<IF Outc(o.v, ob, s) = "ok" /\ Err(b) # "" THEN "running a vial raised " \o Err(b) ELSE "", d>>)

\* setups of experiments that do not exist for the data set
Refused(o) == o.op \in {"setup", "lab"} /\ o.e # 1
Unsupported(o) == \/ o.e \in {2, 3} \/ (o.d = 1 /\ o.e = 4) \/ (o.d = 2 /\ o.e = 5)
Unzipped(c, a) == [ex |-> IF a.ex.on THEN a.ex ELSE c.ex, mi |-> IF a.mi.on THEN a.mi ELSE c.mi, rj |-> IF a.rj.on THEN a.rj ELSE c.rj, sc |-> IF a.sc.on THEN a.sc ELSE c.sc,
                   ok |-> a.ok \cup (c.ok \ a.torn), torn |-> a.torn \cup (c.torn \ a.ok)]

Obs(x) == [ex |-> x.ex, mi |-> x.mi, ok |-> Rng(x.ok), torn |-> Rng(x.torn), rj |-> x.rj, sc |-> x.sc, low |-> Rng(x.low)]
State(x) == [ex |-> x.ex, mi |-> x.mi, ok |-> x.ok, torn |-> x.torn, rj |-> x.rj, sc |-> x.sc]

Init == /\ i \in 1..NR /\ j = 0 /\ bad = (IF Has(Recs[i], "err") THEN "raised " \o Recs[i].err ELSE "")
        /\ sl = [s \in 1..6 |-> Fresh] /\ zp = [s \in 1..6 |-> [on |-> FALSE, c |-> Fresh]]
        /\ nxt = Len(Recs[i].vials) + 1

Finish(o, b, w, new, zip) ==
  LET ob == [s \in 1..6 |-> Obs(b.disk[s])] diff == {s \in 1..6 : State(ob[s]) # new[s]} IN
  /\ j' = j + 1 /\ UNCHANGED i
  /\ bad' = (IF w # "" THEN "at " \o o.op \o ": " \o w
             ELSE IF diff = {} THEN ""
             ELSE LET s == CHOOSE s \in diff : TRUE IN
                  "after " \o o.op \o ", wrong on disk: " \o
                  (IF ob[s].ex # new[s].ex THEN "the experiment file" ELSE IF ob[s].mi # new[s].mi THEN "the file of missing vials"
                   ELSE IF ob[s].rj # new[s].rj THEN "the results file" ELSE IF ob[s].sc # new[s].sc THEN "the Slurm script" ELSE "the results of vials"))
  /\ sl' = new /\ zp' = zip
  /\ nxt' = nxt + (IF o.op \in {"setup", "lab"} /\ o.e = 1 THEN 3 ELSE IF o.op = "one" THEN 1 ELSE 0)

Step ==
  /\ bad = "" /\ j < Len(Rc.ops)
  /\ LET o == Rc.ops[j + 1] b == Rc.obs[j + 1] ob == [s \in 1..6 |-> Obs(b.disk[s])] IN
     CASE b.err = "skipped" -> Finish(o, b, "", sl, zp)
       [] o.op = "zip" -> Finish(o, b, IF b.err # "" THEN "raised " \o b.err ELSE "", sl,
                            [s \in 1..6 |-> IF s \in {(o.d - 1) * 3 + o.es[x] : x \in DOMAIN o.es} THEN [on |-> TRUE, c |-> sl[s]] ELSE zp[s]])
       [] o.op = "unzip" ->
            LET ss == [x \in DOMAIN o.es |-> (o.d - 1) * 3 + o.es[x]]
                n == IF \A x \in DOMAIN ss : zp[ss[x]].on THEN Len(ss) ELSE (CHOOSE x \in DOMAIN ss : ~zp[ss[x]].on /\ \A y \in 1..(x - 1) : zp[ss[y]].on) - 1 IN
            Finish(o, b, IF n < Len(ss) THEN (IF b.err = "" THEN "an archive that does not exist is not reported" ELSE "") ELSE IF b.err # "" THEN "raised " \o b.err ELSE "",
                   [s \in 1..6 |-> IF s \in {ss[x] : x \in 1..n} THEN Unzipped(sl[s], zp[s].c) ELSE sl[s]], zp)
       [] Refused(o) -> Finish(o, b, IF Unsupported(o) /\ b.err = "" THEN "an experiment that does not exist for the data set is not refused" ELSE "", sl, zp)
       [] OTHER -> LET r == Stp(o, b, ob) IN Finish(o, b, r[1], [sl EXCEPT ![S(o)] = r[2]], zp)
Next == Step
Report == IF bad # "" THEN Bad(i, bad) ELSE IF j = Len(Rc.ops) THEN Seen(i) ELSE TRUE
=============================================================================
