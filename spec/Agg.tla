--------------------------------- MODULE Agg ---------------------------------
(* Summary tables: the rows of the table files that experiments leave, grouped by
   their settings; counts of optimal and feasible runs, and means over the rows
   of a group that have a value.  Bounds of the solver that stand for infinity
   are no values, and a run that proves infeasibility is not an optimal one.

   Units: durations ms/2520, bounds and numbers 1/2520, gaps and cuts per node
   1/2520^2, ratios of data sets 1/8 (means of them 1/(8*2520)).               *)
EXTENDS Recs

VARIABLES i, bad
vars == <<i, bad>>
Rc == Recs[i]
No == -999
Inf == -1
U == 2520

Cells(f) == Rng(f.cells)
\* the mean, in units/2520, of the values f[x] of the rows X that have one; {} if none has
Mean(f, X) == LET Y == {x \in X : f[x] # No} IN IF Y = {} THEN {} ELSE {SumOver([x \in Y |-> f[x]], Y) * (U \div Cardinality(Y))}
Count(P(_), X) == Cardinality({x \in X : P(x)})
Cell(lab, col, m, S) == {<<lab, col, m, v>> : v \in S}

Gap(r) == IF r.status = 12 \/ r.lb = Inf \/ r.ub = Inf THEN No ELSE ((r.ub - r.lb) * U) \div r.lb
Opt(r) == Gap(r) = 0 /\ r.status = 11

\* ------------------------------------------------------------ tailing off
T == Rc.tail
Rule(b) == CASE b = 0 -> "Relative branching" [] b = 1 -> "Strong branching" [] b = 2 -> "Strong at tree top" [] b = 4 -> "Default"
TKey(x) == <<ToString(T[x].bdepth), Rule(T[x].rule), ToString(T[x].thr), ToString(T[x].its)>>
TTable == UNION {LET X == {x \in DOMAIN T : TKey(x) = k} IN
    Cell(k, <<>>, "mean_duration", Mean([x \in X |-> T[x].duration], X)) \cup Cell(k, <<>>, "mean_gap", Mean([x \in X |-> Gap(T[x])], X))
      \cup Cell(k, <<>>, "num_optimal_solutions", {Count(LAMBDA x : Opt(T[x]), X)}) \cup Cell(k, <<>>, "num_feasible_solutions", {Count(LAMBDA x : T[x].feasible = 1, X)})
      \cup Cell(k, <<>>, "mean_num_nodes", Mean([x \in X |-> T[x].nodes], X))
      \cup Cell(k, <<>>, "num_secs", Mean([x \in X |-> ((T[x].dt + T[x].mm) * U) \div T[x].nodes], X))
  : k \in {TKey(x) : x \in DOMAIN T}}

\* ------------------------------------------------------------ cost cover
C == Rc.cover
Tsp == Rc.dataset = "tspwplib"
Fn(f) == IF f = "EUC_2D" THEN "EUC" ELSE f
CKept == {x \in DOMAIN C : IF Tsp THEN C[x].fn # "SEMI_MST" ELSE C[x].graph # "laqtinyA"}
Cc(r) == CASE r.djp = 1 -> "Cost cover disjoint paths" [] r.sp = 1 -> "Cost cover shortest paths" [] OTHER -> "No cost cover"
Both == \E x \in DOMAIN C : C[x].djp = 1 /\ C[x].sp = 1 /\ (Tsp => C[x].fn # "SEMI_MST")
CKey(x) == IF Tsp THEN <<Fn(C[x].fn), ToString(C[x].alpha) \o "/100">> ELSE IF Rc.byalpha THEN <<ToString(C[x].alpha)>> ELSE <<ToString(C[x].quota)>>
NoInf(b) == IF b = Inf THEN No ELSE b
CTable == UNION {LET X == {x \in CKept : CKey(x) = k[1] /\ Cc(C[x]) = k[2]} c == <<k[2]>> IN
    Cell(k[1], c, "mean_gap", Mean([x \in X |-> Gap(C[x])], X)) \cup
    (IF Rc.byalpha
     THEN Cell(k[1], c, "mean_lower_bound", Mean([x \in X |-> NoInf(C[x].lb)], X)) \cup Cell(k[1], c, "mean_upper_bound", Mean([x \in X |-> NoInf(C[x].ub)], X))
            \cup Cell(k[1], c, "num_feasible_solutions", {Count(LAMBDA x : C[x].feasible = 1, X)})
     ELSE Cell(k[1], c, "mean_duration", Mean([x \in X |-> C[x].duration], X)) \cup Cell(k[1], c, "num_optimal_solutions", {Count(LAMBDA x : Opt(C[x]), X)})
            \cup Cell(k[1], c, "avg_cuts_presolve", Mean([x \in X |-> C[x].nd + C[x].ns], X)))
  : k \in {<<CKey(x), Cc(C[x])>> : x \in CKept}}

\* ------------------------------------------------------------ heuristics
H == Rc.heur
Inst(r) == <<r.graph, r.quota, r.root>> \o (IF Tsp THEN <<r.generation, r.kappa, r.fn>> ELSE <<>>)
\* the bound of an instance: that of its first exact run with disjoint path covers
Bound(r) == LET X == {x \in DOMAIN C : C[x].djp = 1 /\ Inst(C[x]) = Inst(r)} IN IF X = {} THEN No ELSE C[CHOOSE x \in X : \A y \in X : x <= y].lb
HGap(r) == LET b == Bound(r) IN IF b = No \/ r.objective = No THEN No ELSE ((r.objective - b) * U) \div b
Dup(r) == <<Inst(r), r.algorithm, r.pdl, r.step, r.collapse>>
Short == [bfs_extension_collapse |-> "BFS-EC", bfs_path_extension_collapse |-> "BFS-PEC", suurballes_extension_collapse |-> "SBL-EC",
          suurballes_heuristic |-> "SBL", suurballes_path_extension_collapse |-> "SBL-PEC"]
HKept(only) == {x \in DOMAIN H : /\ \A y \in 1..(x - 1) : Dup(H[y]) # Dup(H[x])
                                 /\ (H[x].algorithm = "suurballes_extension_collapse") = only
                                 /\ IF Tsp THEN H[x].fn # "SEMI_MST" ELSE H[x].graph # "laqtinyA"}
HKey(x) == IF Tsp THEN <<Fn(H[x].fn), ToString(H[x].kappa)>> ELSE IF Rc.byalpha THEN <<ToString(H[x].alpha)>> ELSE <<ToString(H[x].quota)>>
HTable(only) == UNION {LET X == {x \in HKept(only) : HKey(x) = k[1] /\ H[x].algorithm = k[2]} c == <<Short[k[2]]>> IN
    Cell(k[1], c, "mean_gap", Mean([x \in X |-> HGap(H[x])], X)) \cup Cell(k[1], c, "mean_duration", Mean([x \in X |-> H[x].duration], X))
      \cup Cell(k[1], c, "num_optimal_solutions", {Count(LAMBDA x : HGap(H[x]) = 0, X)}) \cup Cell(k[1], c, "num_feasible_solutions", {Count(LAMBDA x : H[x].feasible = 1, X)})
  : k \in {<<HKey(x), H[x].algorithm>> : x \in HKept(only)}}

\* ------------------------------------------------------------ data sets
D == Rc.data
DTable == IF ~Tsp
  THEN UNION {LET k == <<D[x].graph>> IN
         Cell(k, <<>>, "num_nodes", {D[x].counts[1]}) \cup Cell(k, <<>>, "num_edges", {D[x].counts[2]}) \cup Cell(k, <<>>, "preprocessed_num_nodes", {D[x].counts[3]})
           \cup Cell(k, <<>>, "preprocessed_num_edges", {D[x].counts[4]}) \cup Cell(k, <<>>, "preprocessed_prize_ratio", {D[x].ratios[1]})
           \cup Cell(k, <<>>, "metricness", {D[x].ratios[2]}) \cup Cell(k, <<>>, "disjoint_prize_ratio", {D[x].ratios[3]}) : x \in DOMAIN D}
  ELSE UNION {LET X == {x \in DOMAIN D : <<D[x].kappa, D[x].fn>> = k} IN
         Cell(<<ToString(k[1])>>, <<k[2]>>, "mean_disjoint_prize_ratio", Mean([x \in X |-> D[x].ratios[3]], X))
           \cup Cell(<<ToString(k[1])>>, <<k[2]>>, "mean_preprocessed_prize_ratio", Mean([x \in X |-> D[x].ratios[1]], X))
         : k \in {<<D[x].kappa, D[x].fn>> : x \in DOMAIN D}}

\* ------------------------------------------------------------ files
CName == IF Rc.byalpha THEN "cc_londonaq_alpha" ELSE "cost_cover"
HName == IF Rc.byalpha THEN "londonaq_alpha" ELSE "compare_heuristics"
Name(w) == CASE w = "data" -> (IF Tsp THEN "tsplib_dataset.tex" ELSE "londonaq_dataset.tex")
             [] w = "tail" -> Rc.dataset \o "_tailing_off.tex"
             [] w = "cover" -> Rc.dataset \o "_" \o CName \o ".tex"
             [] w = "heur" -> Rc.dataset \o "_" \o HName \o ".tex"
             [] w = "only" -> Rc.dataset \o "_" \o HName \o "_SBL-EC.tex"
Table(w) == CASE w = "data" -> DTable [] w = "tail" -> TTable [] w = "cover" -> CTable [] w = "heur" -> HTable(FALSE) [] w = "only" -> HTable(TRUE)
There(w) == CASE w \in {"heur", "only"} -> Rc.have.heur /\ Rc.have.cover [] OTHER -> Rc.have[w]
Shows(f, w) == f.name = Name(w) /\ f.marks = 1 /\ Len(f.cells) = Cardinality(Cells(f)) /\ Cells(f) = Table(w)
WrongOne(w) ==
  LET o == Rc.o[w] IN
  IF ~There(w) THEN (IF o.err # "FileNotFoundError" THEN "a table of experiments that were never written is not refused" ELSE "")
  ELSE IF w = "cover" /\ Both THEN (IF o.err = "ValueError" /\ o.files = <<>> THEN "" ELSE "a run with both cost covers is put under one of them")
  ELSE IF w = "only" /\ HKept(TRUE) = {} THEN ""
  ELSE IF o.err # "" THEN "the table raised " \o o.err
  ELSE IF Len(o.files) # 1 THEN "the table is not written to its file"
  ELSE IF ~Shows(o.files[1], w) THEN "the table does not summarise the rows of its experiments" ELSE ""
Due == {w \in {"data", "tail"} \cup (IF Rc.byalpha THEN {} ELSE {"cover", "heur"}) : There(w)}
WrongAll ==
  IF Both /\ There("cover") /\ ~Rc.byalpha THEN (IF Rc.o.all.err = "ValueError" THEN "" ELSE "a run with both cost covers is put under one of them")
  ELSE IF Rc.o.all.err # "" THEN "writing all tables raised " \o Rc.o.all.err
  ELSE IF {Rc.o.all.files[x].name : x \in DOMAIN Rc.o.all.files} # {Name(w) : w \in Due} THEN "writing all tables does not write every table whose experiments there are"
  ELSE IF \E w \in Due : ~ \E x \in DOMAIN Rc.o.all.files : Shows(Rc.o.all.files[x], w) THEN "a table among all does not summarise the rows of its experiments" ELSE ""
Wrong ==
  IF Has(Rc, "err") THEN "raised " \o Rc.err
  ELSE LET W == {w \in {"data", "tail", "cover", "heur", "only"} : WrongOne(w) # ""} IN
       IF W # {} THEN LET w == CHOOSE w \in W : TRUE IN w \o ": " \o WrongOne(w) ELSE WrongAll

Init == i \in 1..NR /\ bad = "?"
Next == bad = "?" /\ bad' = Wrong /\ UNCHANGED i
Report == IF bad = "?" THEN TRUE ELSE IF bad = "" THEN Seen(i) ELSE Bad(i, bad)
=============================================================================
