------------------------------- MODULE Stats -------------------------------
(* Statistics files.  A summary that is written and read back, by the compiled
   code or by the Python model, is the same summary; the tables of node records
   and bounds have their columns in order, one row per record, and times in UTC
   with three digits of milliseconds.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT What      \* "summary", "python" or "csv"
VARIABLES i, done

Recs == ndJsonDeserialize(IOEnv.VP_RECS)
NR == Len(Recs)
R(k) == Recs[k]
Has(r, f) == f \in DOMAIN r
Bad(k, why) == PrintT("@@" \o ToJson([bad |-> k, why |-> why]))
Seen(k) == PrintT("@@" \o ToJson([seen |-> k]))

Fields == {"status", "lb", "ub", "ccdp", "ccsp", "predp", "presp", "cyc", "nodes", "dt", "mf"}
SameSummary(k) == \A f \in Fields : R(k).got[f] = R(k).st[f]

(* ---- the calendar: seconds since 1970 to date and time *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
RECURSIVE YearOf(_, _)
YearOf(d, y) == LET len == IF Leap(y) THEN 366 ELSE 365 IN IF d < len THEN <<y, d>> ELSE YearOf(d - len, y + 1)
RECURSIVE MonthOf(_, _, _)
MonthOf(d, y, m) == IF d < DaysIn(y, m) THEN <<m, d + 1>> ELSE MonthOf(d - DaysIn(y, m), y, m + 1)
P2(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
P3(x) == IF x < 10 THEN "00" \o ToString(x) ELSE IF x < 100 THEN "0" \o ToString(x) ELSE ToString(x)
Stamp(s, ms) ==
  LET yd == YearOf(s \div 86400, 1970) md == MonthOf(yd[2], yd[1], 1) t == s % 86400
  IN ToString(yd[1]) \o "-" \o P2(md[1]) \o "-" \o P2(md[2]) \o "T" \o P2(t \div 3600) \o ":" \o P2((t % 3600) \div 60) \o ":" \o P2(t % 60)
     \o "." \o P3(ms) \o "Z"

NodeHead == <<"lower_bound", "node_id", "num_sec_disjoint_tour", "num_sec_maxflow_mincut", "num_cost_cover_disjoint_paths",
              "num_cost_cover_shortest_paths", "num_cost_cover_steiner_tree", "parent_id", "upper_bound">>
BoundHead == <<"start_timestamp", "end_timestamp", "lower_bound", "upper_bound", "node_id">>
NodeRow(x) == [c \in 1..9 |-> ToString(x[c])]
BoundRow(x) == <<Stamp(x[1], x[2]), Stamp(x[1], x[3]), ToString(x[4]), ToString(x[5]), ToString(x[6])>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

Wrong(k) ==
  IF Has(R(k), "err") THEN "raised " \o R(k).err
  ELSE CASE What = "summary" ->
         IF ~SameSummary(k) THEN "a summary that is written and read back is another summary"
         ELSE IF R(k).made THEN "a summary was written into a folder that does not exist"
         ELSE IF ~R(k).missing THEN "a missing summary file is not reported as missing" ELSE ""
    [] What = "python" -> IF ~SameSummary(k) THEN "the Python model reads another summary than was written" ELSE ""
    [] OTHER ->
         IF R(k).ncsv # <<NodeHead>> \o [x \in DOMAIN R(k).nodes |-> NodeRow(R(k).nodes[x])] THEN "the table of node records is wrong"
         ELSE IF R(k).bcsv # <<BoundHead>> \o [x \in DOMAIN R(k).bounds |-> BoundRow(R(k).bounds[x])] THEN "the table of bounds is wrong"
         ELSE IF R(k).dt # Sum([x \in DOMAIN R(k).nodes |-> R(k).nodes[x][3]]) \/ R(k).mf # Sum([x \in DOMAIN R(k).nodes |-> R(k).nodes[x][4]])
              THEN "the total number of cuts is not the sum over the nodes" ELSE ""
Init == i \in 1..NR /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ LET w == Wrong(i) IN IF w = "" THEN Seen(i) ELSE Bad(i, w)
=============================================================================
