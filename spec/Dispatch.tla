------------------------------ MODULE Dispatch ------------------------------
(* From a vial to a result: the preprocessing steps of the vial in their order,
   then the algorithm of the vial.  A heuristic is a route through its parts
   (start tour, extension until prize-feasible, unitary gain & collapse or path
   extension & collapse); the parts on the same graph are recorded next to the
   result.  The exact algorithm must reach the optimum of the problem machine,
   whatever its warm start and its parameters are.                           *)
EXTENDS PCTSP

Rc(k) == Recs[k]
Suur == {"suurballes_heuristic", "suurballes_extension_collapse", "suurballes_path_extension_collapse"}
Isolated(k) == Adj(k, Rc(k).root) \ {Rc(k).root} = {}
Part(k, f) == IF f \in DOMAIN Rc(k).parts THEN Rc(k).parts[f].tour ELSE <<>>
NoCycle(k) == ~Rc(k).maps /\ Part(k, "bfs") = <<>>
\* the route of an algorithm
Route(k, a) ==
  CASE a = "suurballes_heuristic" -> Part(k, "suurballes")
    [] a = "bfs_extension_collapse" -> Part(k, "bfs_ec")
    [] a = "bfs_path_extension_collapse" -> Part(k, "bfs_pec")
    [] a = "suurballes_extension_collapse" -> Part(k, "suur_ec")
    [] a = "suurballes_path_extension_collapse" -> Part(k, "suur_pec")
TourEdges(t) == {Norm(<<t[x], t[x + 1]>>) : x \in 1..(Len(t) - 1)}
EdgeSet(es) == {Norm(es[x]) : x \in DOMAIN es}

WrongPre(k) ==
  LET r == Rc(k) IN
  IF r.cut # 0 THEN (IF r.preerr = "NotImplementedError" THEN "" ELSE "a preprocessing step that does not exist is not refused")
  ELSE IF r.preerr # "" THEN "preprocessing raised " \o r.preerr
  ELSE IF r.got.v # r.want.v \/ r.got.e # r.want.e THEN "the preprocessed graph is not what the steps of the vial make of the graph"
  ELSE ""
Consistent(k) ==
  LET x == Rc(k).res es == x.edges IN
  IF ~x.uuid THEN "the result carries the name of another vial"
  ELSE IF ~x.times THEN "the result ends before it starts"
  ELSE IF \E y \in DOMAIN es : ~(es[y][1] \in Verts(k) /\ es[y][2] \in Verts(k)) THEN "an edge of the result is not in the graph"
  ELSE IF \E y \in DOMAIN es : ~IsEdge(k, es[y][1], es[y][2]) THEN "an edge of the result is not in the graph"
  ELSE IF Cardinality(EdgeSet(es)) # Len(es) THEN "an edge of the result is listed twice"
  ELSE IF x.objective # EdgesCost(k, es) THEN "the objective of the result is not the cost of its edges"
  ELSE IF x.prize # PrizeOf(k, EdgeVerts(es)) THEN "the prize of the result is not the prize of its vertices"
  ELSE ""
WrongHeur(k, a) ==
  LET r == Rc(k) IN
  IF r.err1 # "" THEN (IF a \in Suur /\ r.err1 = "ValueError" /\ NoCycle(k) THEN "" ELSE "raised " \o r.err1)
  ELSE IF Consistent(k) # "" THEN Consistent(k)
  ELSE IF EdgeSet(r.res.edges) # TourEdges(Route(k, a)) THEN "the result is not the tour that the parts of the heuristic lead to"
  ELSE ""
WrongExact(k) ==
  LET r == Rc(k) es == r.res.edges IN
  IF r.err1 # "" THEN (IF Isolated(k) \/ (r.warm \in Suur /\ r.err1 = "ValueError" /\ NoCycle(k)) THEN "" ELSE "raised " \o r.err1)
  ELSE IF Consistent(k) # "" THEN Consistent(k)
  ELSE IF r.stats # "" THEN "the solver is not given the options of the vial: " \o r.stats
  ELSE IF es = <<>> THEN ""
  ELSE IF ~IsEdgeTour(k, es, r.root) THEN "the exact result is not a simple tour through the root"
  ELSE IF r.res.prize < r.quota THEN "the exact result does not collect the quota"
  ELSE ""
Wrong(k) ==
  LET r == Rc(k) IN
  IF Has(r, "err") THEN "raised " \o r.err
  ELSE IF WrongPre(k) # "" THEN WrongPre(k)
  ELSE IF ~r.inroot THEN ""
  ELSE CASE r.alg \in {"extension", "disjoint_tours_relaxation"} -> (IF r.err1 = "NotImplementedError" \/ Isolated(k) THEN "" ELSE "an algorithm that does not exist is not refused")
         [] r.alg = "solve_pctsp" -> WrongExact(k)
         [] OTHER -> WrongHeur(k, r.alg)

IsExact(k) == ~Has(Rc(k), "err") /\ Rc(k).alg = "solve_pctsp" /\ Rc(k).inroot /\ Wrong(k) = "" /\ Rc(k).err1 = ""
MyBound(k) == IF ~IsExact(k) THEN 0 ELSE IF Rc(k).res.edges = <<>> THEN Inf ELSE Rc(k).res.objective
Init == \E k \in 1..NR : Start(k) /\ st = "claim"
Claim == /\ st = "claim" /\ st' = (IF IsExact(i) THEN "build" ELSE "closed") /\ UNCHANGED <<i, vis, cur, cost>>
Next == Claim \/ Build
Report ==
  CASE st = "claim" -> (IF Wrong(i) = "" THEN Seen(i) ELSE Bad(i, Wrong(i)))
    [] OTHER -> ~(IsExact(i) /\ Feasible /\ cost < MyBound(i)) \/ Bad(i, "the exact result is not a cheapest tour that collects the quota")
=============================================================================
