------------------------------- MODULE Compare -------------------------------
(* Experiments are products: an odometer runs over the parameter lists, the last
   list fastest, and every position of it is one data setting (or one setting of
   the model, of the preprocessing, or one vial).
   None is -999 (numbers and flags) or "" (words).                             *)
EXTENDS Recs, Settings

VARIABLES i, j, pos, bad
vars == <<i, j, pos, bad>>
Rc == Recs[i]

\* ------------------------------------------------------------- the data files
TspFile(g, m) == Rc.tsp[CASE g = "gen1" -> 1 [] g = "gen2" -> 2 [] OTHER -> 3][Rc.slot[m]]
LaqFile(m) == Rc.laq[CASE m = "laqbbA" -> 1 [] m = "laqidA" -> 2 [] m = "laqkxA" -> 3 [] m = "laqwsA" -> 4 [] OTHER -> 5]
Share(alpha, f) == (alpha * SumSeq(f.prize)) \div 100

TspData(a, k, g, m, c) ==
  [dataset |-> "tspwplib", cost_function |-> c, graph_name |-> m, quota |-> Share(a, TspFile(g, m)), root |-> TspFile(g, m).depot + 1,
   alpha |-> a, generation |-> g, kappa |-> (IF k = 0 THEN No ELSE k), triangle |-> 0]
LaqData(q, m) ==
  [dataset |-> "londonaq", cost_function |-> "EXPLICIT", graph_name |-> m, quota |-> q, root |-> LaqFile(m).depot,
   alpha |-> No, generation |-> "", kappa |-> No, triangle |-> No]
LaqShare(a, m) == [LaqData(Share(a, LaqFile(m)), m) EXCEPT !.alpha = a]

\* ------------------------------------------------------------- experiments
Gens == <<"gen1", "gen2", "gen3">>
FullTsp == <<Rc.lists.alphas, Rc.lists.kappas, Gens, Rc.lists.names, Rc.lists.cfs>>
FullLaq == <<Rc.lists.quotas, Rc.lists.lnames>>
TspExps == {"baseline", "compare_heuristics", "cost_cover", "disjoint_tours_vs_heuristics", "dryrun", "simple_branch_cut", "tailing_off"}
LaqExps == {"baseline", "compare_heuristics", "cost_cover", "cc_londonaq_alpha", "dryrun", "londonaq_alpha", "tailing_off"}
Refused == CASE Rc.dataset = "tspwplib" -> Rc.exp = "cc_londonaq_alpha"
             [] OTHER -> Rc.exp \in {"disjoint_tours_vs_heuristics", "simple_branch_cut"}
\* londonaq_alpha trusts its caller with the data set
Skipped == Rc.dataset = "tspwplib" /\ Rc.exp = "londonaq_alpha"
ExpLists ==
  IF Rc.dataset = "tspwplib"
  THEN CASE Rc.exp = "disjoint_tours_vs_heuristics" -> <<<<25, 50, 75>>, <<5, 10, 15, 20>>, Gens, <<"st70", "rat195", "a280">>, <<"EUC_2D">>>>
         [] Rc.exp = "dryrun" -> <<<<50>>, <<10>>, <<"gen1">>, <<"st70">>, <<"EUC_2D">>>>
         [] Rc.exp = "simple_branch_cut" -> <<<<25, 50, 75>>, <<No, 10, 20, 30>>, Gens, <<"st70", "rat195", "pr152", "gr229">>, Rc.lists.cfs>>
         [] Rc.exp = "tailing_off" -> <<<<25, 75>>, <<10, 20>>, Gens, Rc.lists.names, Rc.lists.cfs>>
         [] OTHER -> FullTsp
  ELSE CASE Rc.exp = "dryrun" -> <<<<200>>, <<"laqtinyA">>>>
         [] Rc.exp \in {"cc_londonaq_alpha", "londonaq_alpha"} -> <<Rc.lists.alphas, Rc.lists.lnames>>
         [] OTHER -> FullLaq
ByAlpha == Rc.op = "laqalpha" \/ (Rc.op = "exp" /\ Rc.exp \in {"cc_londonaq_alpha", "londonaq_alpha"})
Three == <<"bfs_extension_collapse", "suurballes_heuristic", "solve_pctsp">>
ExpModels ==
  CASE Rc.exp = "baseline" -> <<Branch("bfs_extension_collapse", 0, 1, 0, 0, 2, 5)>>
    [] Rc.exp \in {"compare_heuristics", "londonaq_alpha"} -> AllHeuristics
    [] Rc.exp \in {"cost_cover", "cc_londonaq_alpha"} -> CostCovers
    [] Rc.exp = "tailing_off" -> Tailings
    [] Rc.exp = "dryrun" -> Models(Three, 0, 2, 1, 10)
    [] Rc.exp = "simple_branch_cut" -> Models(Three, 0, 2, 1, FourHours)
    [] Rc.exp = "disjoint_tours_vs_heuristics" -> Models(<<"disjoint_tours_relaxation", "bfs_extension_collapse", "suurballes_heuristic">>, 0, 2, 1, FourHours)

\* ------------------------------------------------------------- the odometer
Lists == CASE Rc.op = "tsp" -> <<Rc.alphas, Rc.kappas, Rc.gens, Rc.names, Rc.cfs>>
           [] Rc.op = "laq" -> <<Rc.quotas, Rc.lnames>>
           [] Rc.op = "laqalpha" -> <<Rc.alphas, Rc.lnames>>
           [] Rc.op = "model" -> <<Rc.algs>>
           [] Rc.op = "prep" -> Rc.pres
           [] Rc.op = "vials" -> <<Rc.quotas, Rc.algs, Rc.pres[1]>>
           [] OTHER -> ExpLists
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Len(Head(s)) * Product(Tail(s))
RECURSIVE Turn(_, _, _)
Turn(p, ls, k) == IF k = 0 THEN p ELSE IF p[k] < Len(ls[k]) THEN [p EXCEPT ![k] = @ + 1] ELSE Turn([p EXCEPT ![k] = 1], ls, k - 1)
D(k) == Lists[k][pos[k]]
Item == CASE Rc.op = "tsp" \/ (Rc.op = "exp" /\ Rc.dataset = "tspwplib") -> TspData(D(1), D(2), D(3), D(4), D(5))
          [] ByAlpha -> LaqShare(D(1), D(2))
          [] Rc.op = "laq" \/ Rc.op = "exp" -> LaqData(D(1), D(2))
          [] Rc.op = "model" -> Model(D(1), Rc.csp, Rc.depth, Rc.step, IF Rc.limit = No THEN FourHours ELSE Rc.limit)
          [] Rc.op = "prep" -> Pre(D(1), D(2), D(3))
          [] OTHER -> pos

\* the vials of an experiment as numbers: (data, model, preprocessing) each
Triple(x, nm, np) == <<((x - 1) \div (nm * np)) + 1, (((x - 1) \div np) % nm) + 1, ((x - 1) % np) + 1>>
BadAlpha == \E a \in Rng(Rc.alphas) : a < 0 \/ a > 100
Err == IF Has(Rc, "err") THEN Rc.err ELSE ""
Top == Product(Lists)
WrongStart ==
  IF Rc.op = "exp" /\ Skipped THEN "skip"
  ELSE IF Rc.op = "exp" /\ Refused THEN (IF Err = "ValueError" THEN "skip" ELSE "an experiment on a data set it does not support is not refused")
  ELSE IF Rc.op = "laqalpha" /\ BadAlpha THEN "skip"
  ELSE IF Rc.op = "tsp" /\ BadAlpha THEN (IF Top = 0 \/ Err = "ValueError" THEN "skip" ELSE "a share of the prize below 0 or above 100 percent is not refused")
  ELSE IF Err # "" THEN "raised " \o Err
  ELSE IF Len(Rc.items) # Top THEN "there are not as many settings as combinations"
  ELSE IF Rc.op \in {"exp", "vials"} THEN
       LET nm == IF Rc.op = "exp" THEN Len(ExpModels) ELSE Len(Rc.algs)
           nd == IF Rc.op = "exp" THEN Top ELSE Len(Rc.quotas)
           np == IF Rc.op = "exp" THEN 1 ELSE Len(Rc.pres[1]) IN
       IF Rc.uuids # nd * nm * np \/ Len(Rc.vials) # nd * nm * np THEN "there is not one vial with its own UUID per combination"
       ELSE IF \E x \in DOMAIN Rc.vials : Rc.vials[x] # Triple(x, nm, np) THEN "the vials are not the combinations of data, model and preprocessing, in order"
       ELSE IF Rc.op = "exp" /\ Rc.models # ExpModels THEN "the algorithms of the experiment are not the ones it compares"
       ELSE IF Rc.op = "exp" /\ Rc.preps # <<Pre(0, 0, 1)>> THEN "the experiment does not keep to one-connected preprocessing"
       ELSE ""
  ELSE ""

Init == /\ i \in 1..NR /\ j = 1
        /\ bad = WrongStart
        /\ pos = (IF Recs[i].op = "vials" THEN <<1, 1, 1>> ELSE [k \in DOMAIN Lists |-> 1])
Step == /\ bad = "" /\ j <= Top /\ UNCHANGED i
        /\ IF Rc.op = "vials" THEN j' = Top + 1 /\ UNCHANGED <<pos, bad>>
           ELSE /\ bad' = (IF Rc.items[j] = Item THEN "" ELSE "a setting is not the combination at its position")
                /\ j' = j + 1 /\ pos' = Turn(pos, Lists, Len(Lists))
Next == Step
Report == IF bad = "skip" THEN Seen(i) ELSE IF bad # "" THEN Bad(i, bad) ELSE IF j > Top THEN Seen(i) ELSE TRUE
=============================================================================
