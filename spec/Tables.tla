------------------------------- MODULE Tables -------------------------------
(* Vials and results on their way through files and tables.
   None and NaN are -999 (numbers and flags) or "" (words); uuids are vial numbers
   (those of the exact experiment above 100).                                  *)
EXTENDS Recs

VARIABLES i, bad
vars == <<i, bad>>
Rc == Recs[i]
No == -999

Row(v, k) == [uuid |-> k] @@ v.data @@ v.model @@ v.pre
Rows(vs) == [k \in DOMAIN vs |-> Row(vs[k], k)]

\* results by vial number; a table of them follows the order of the vials
Of(rs, k) == {x \in DOMAIN rs : rs[x].v = k}
Joined(vs, rs) == SelectSeq([k \in DOMAIN vs |-> k], LAMBDA k : Of(rs, k) # {})
Line(vs, rs, k) ==
  LET r == rs[CHOOSE x \in Of(rs, k) : TRUE] v == vs[k] ok == r.prize >= v.data.quota IN
  [uuid |-> k, objective |-> (IF ok THEN r.objective ELSE No), prize |-> r.prize, quota |-> v.data.quota, duration |-> r.dt, feasible |-> ok,
   overshoot |-> (IF ok THEN r.prize - v.data.quota ELSE No), algorithm |-> v.model.algorithm, root |-> v.data.root, graph_name |-> v.data.graph_name]
Summary(vs, rs) == LET J == Joined(vs, rs) IN [x \in DOMAIN J |-> Line(vs, rs, J[x])]

\* statistics: the files that exist and can be read, in the order asked for
HasStats(k) == Rc.stats[k].on /\ ~Rc.stats[k].torn
StatRow(k) == [uuid |-> k, status |-> Rc.stats[k].s.status, lower_bound |-> Rc.stats[k].s.lower_bound, upper_bound |-> Rc.stats[k].s.upper_bound, counts |-> Rc.stats[k].s.counts]
StatRows == LET S == SelectSeq([k \in DOMAIN Rc.exact |-> k], HasStats) IN [x \in DOMAIN S |-> StatRow(S[x])]
\* branch and cut table: the summary lines of vials with statistics
BranchRows == SelectSeq(Joined(Rc.exact, Rc.xresults), HasStats)

\* the gap of a heuristic result: to a lower bound of an exact vial with
\* disjoint path cost covers on the same instance
Key(v) == <<v.data.dataset, v.data.graph_name, v.data.quota, v.data.root>> \o
          (IF Rc.dataset = "tspwplib" THEN <<v.data.generation, v.data.kappa, v.data.cost_function>> ELSE <<>>)
Dup(v) == <<Key(v), v.model.algorithm, v.model.path_depth_limit, v.model.step_size, v.model.collapse_paths>>
Bounds(v) == SelectSeq(BranchRows, LAMBDA k : Key(Rc.exact[k]) = Key(v) /\ Rc.exact[k].model.cost_cover_disjoint_paths = 1)
HeurRows == LET J == Joined(Rc.vials, Rc.results) IN
            SelectSeq([x \in DOMAIN J |-> x], LAMBDA x : \A y \in 1..(x - 1) : Dup(Rc.vials[J[y]]) # Dup(Rc.vials[J[x]]))
WrongGap(g) ==
  LET v == Rc.vials[g.uuid] r == Rc.results[CHOOSE x \in Of(Rc.results, g.uuid) : TRUE] b == Bounds(v) IN
  IF b = <<>> THEN g.lb # No \/ g.gap1000 # No \/ g.opt
  ELSE LET lb == g.lb diff == r.objective - lb IN
    \/ ~ \E x \in DOMAIN b : lb = Rc.stats[b[x]].s.lower_bound
    \/ IF r.prize < v.data.quota THEN g.gap1000 # No \/ g.opt
       ELSE \/ g.gap1000 * lb - diff * 1000 > lb \/ diff * 1000 - g.gap1000 * lb > lb
            \/ g.opt # (diff = 0)

\* pretty printing replaces names of algorithms, cost functions and branching rules, each in its own column only
Long == [disjoint_tours_relaxation |-> "Disjoint Tours Relaxation", extension |-> "Extension", bfs_extension_collapse |-> "BFS Extension and Collapse",
         bfs_path_extension_collapse |-> "BFS Path Extension and Collapse", solve_pctsp |-> "PCTSP Branch and Cut",
         suurballes_extension_collapse |-> "Suurballe's Extension and Collapse", suurballes_heuristic |-> "Suurballe's heuristic",
         suurballes_path_extension_collapse |-> "Suurballe's Path Extension and Collapse"]
Short == [disjoint_tours_relaxation |-> "DTR", extension |-> "Ex", bfs_extension_collapse |-> "BFS-EC", bfs_path_extension_collapse |-> "BFS-PEC",
          solve_pctsp |-> "BC", suurballes_extension_collapse |-> "SBL-EC", suurballes_heuristic |-> "SBL", suurballes_path_extension_collapse |-> "SBL-PEC"]
Rule(b) == CASE b = 0 -> "Relative branching" [] b = 1 -> "Strong branching" [] b = 2 -> "Strong at tree top" [] OTHER -> "Default"
PrettyRow(k) == LET v == Rc.vials[k] IN
  [algorithm |-> IF Rc.pretty.long THEN Long[v.model.algorithm] ELSE Short[v.model.algorithm],
   cost_function |-> IF v.data.cost_function = "EUC_2D" THEN "EUC" ELSE "MST",
   branching |-> IF Rc.pretty.drop THEN "" ELSE Rule(v.model.branching_strategy), quota |-> v.data.quota, root |-> v.data.root]
Same(a, b) == Len(a) = Len(b) /\ \A x \in DOMAIN a : a[x] = b[x]

Wrong ==
  IF Has(Rc, "err") THEN "raised " \o Rc.err
  ELSE IF ~Same(Rc.flat, Rows(Rc.vials)) THEN "a flattened vial does not have the settings of the vial"
  ELSE IF ~Same(Rc.frame, Rows(Rc.vials)) THEN "the table of vials is not the vials in order"
  ELSE IF ~Same(Rc.back, Rows(Rc.vials)) THEN "an experiment read from its file does not have the vials that were written"
  ELSE IF ~Same(Rc.rback, [x \in DOMAIN Rc.results |-> Rc.results[x]]) THEN "a result read from its file is not the one written"
  ELSE IF Rc.nodir # "FileNotFoundError" THEN "writing or reading a result in a directory that does not exist is not refused"
  ELSE IF ~Same(Rc.summary, Summary(Rc.vials, Rc.results)) THEN "the summary is not one correct line per vial with a result, in order"
  ELSE IF ~Same(Rc.csv, Summary(Rc.vials, Rc.results)) THEN "the table file does not hold the summary"
  ELSE IF ~Same(Rc.srows, StatRows) THEN "the table of statistics is not the readable statistics, in order"
  ELSE IF ~Same(Rc.brows, [x \in DOMAIN BranchRows |-> <<Line(Rc.exact, Rc.xresults, BranchRows[x]), StatRow(BranchRows[x])>>]) THEN "the branch and cut table is not results joined with statistics"
  ELSE IF ~Rc.allsame THEN "writing the tables of all experiments does not write those of each"
  ELSE IF Rc.gaperr # "" THEN "the gaps raised " \o Rc.gaperr
  ELSE IF Rc.gapped /\ Len(Rc.gaps) # Len(HeurRows) THEN "there is not one gap per different heuristic result"
  ELSE IF Rc.gapped /\ \E x \in DOMAIN Rc.gaps : Rc.gaps[x].uuid # Joined(Rc.vials, Rc.results)[HeurRows[x]] THEN "the gaps are not those of the first results, in order"
  ELSE IF Rc.gapped /\ \E x \in DOMAIN Rc.gaps : WrongGap(Rc.gaps[x]) THEN "a gap is not the one to the lower bound of the same instance"
  ELSE IF ~Same(Rc.prows, [k \in DOMAIN Rc.prows |-> PrettyRow(Rc.pidx[k])]) THEN "a pretty table does not show the values it was made from"
  ELSE ""

Init == i \in 1..NR /\ bad = "?"
Next == bad = "?" /\ bad' = Wrong /\ UNCHANGED i
Report == IF bad = "?" THEN TRUE ELSE IF bad = "" THEN Seen(i) ELSE Bad(i, bad)
=============================================================================
