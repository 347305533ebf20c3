-------------------------------- MODULE Plots --------------------------------
(* Drawing a graph or a tour.  A pen follows the points of a line trace one at a
   time; it draws a stroke to a point when it is down and is lifted by a gap.
   The strokes on the paper must be the edges that were asked for, each once,
   between the places of their ends, and nothing else.
   Records: label, xy, order, edges, tour, and o with a line trace for every
   drawing (es, red: the edges; graph: the whole picture; tour: the tour).     *)
EXTENDS Recs

VARIABLES i, w, j, last, strokes, st
vars == <<i, w, j, last, strokes, st>>
Rc == Recs[i]
Err == Has(Rc, "err")
Draws == {"es", "red", "graph", "tour"}
Obs(d) == IF d = "graph" THEN (IF Rc.o.graph.err = "" THEN Rc.o.graph.es ELSE Rc.o.graph) ELSE Rc.o[d]
Failed(d) == Rc.o[d].err # ""
Skipped(d) == Rc.o[d].err = "skip"
Trace == IF w \in Draws /\ ~Failed(w) THEN Obs(w) ELSE [pts |-> <<>>]
At(v) == Rc.xy[v + 1]
Stroke(a, b) == IF a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]) THEN <<a, b>> ELSE <<b, a>>
Nil == <<>>

Init ==
  /\ \E k \in 1..NR : i = k
  /\ IF Err THEN w = "none" ELSE w \in Draws
  /\ j = 1 /\ last = Nil /\ strokes = <<>> /\ st = "draw"
Follow ==
  /\ st = "draw" /\ j <= Len(Trace.pts)
  /\ LET p == Trace.pts[j] IN
       /\ strokes' = IF p # Nil /\ last # Nil THEN Append(strokes, Stroke(last, p)) ELSE strokes
       /\ last' = IF p = Nil /\ Trace.joined THEN last ELSE p
  /\ j' = j + 1 /\ UNCHANGED <<i, w, st>>

\* what should be on the paper
InTour(e) == \E k \in 1..(Len(Rc.tour) - 1) : {Rc.tour[k], Rc.tour[k + 1]} = {e[1], e[2]}
Due == LET es == IF w = "tour" THEN SelectSeq(Rc.edges, InTour) ELSE Rc.edges IN [k \in DOMAIN es |-> Stroke(At(es[k][1]), At(es[k][2]))]
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) \cup Rng(t) : Cardinality({k \in DOMAIN s : s[k] = x}) = Cardinality({k \in DOMAIN t : t[k] = x})
\* a zero-length stroke is not seen (two vertices at one place)
Seenable(s) == SelectSeq(s, LAMBDA x : x[1] # x[2])
Dots(m) == /\ m.mode = "markers" /\ Len(m.pts) = Rc.n /\ Len(m.color) = Rc.n
           /\ SameBag([k \in DOMAIN m.pts |-> <<m.pts[k], m.color[k]>>], [k \in 1..Rc.n |-> <<Rc.xy[k], Rc.prize[k]>>])
Colour == IF w = "red" \/ (w = "tour" /\ Rc.custom) THEN Rc.colour ELSE IF w = "tour" THEN "red" ELSE "#888"
Others ==
  IF Rc.o.vs.err # "" THEN "drawing the vertices raised " \o Rc.o.vs.err
  ELSE IF ~Dots(Rc.o.vs) THEN "the vertices are not drawn at their places in the colours of their values"
  ELSE IF Rc.o.layout.err # "" THEN "the layout of a picture raised " \o Rc.o.layout.err
  ELSE IF Rc.o.layout.legend \/ Rc.o.layout.grid THEN "a picture of a graph shows a legend or a grid"
  ELSE ""
Wrong ==
  IF w = "none" THEN "raised " \o Rc.err
  ELSE IF Skipped(w) THEN ""
  ELSE IF Failed(w) THEN "drawing raised " \o Rc.o[w].err
  ELSE IF Trace.mode # "lines" THEN "edges are not drawn as lines"
  ELSE IF Trace.n[1] # Trace.n[2] THEN "a line has a place without a coordinate"
  ELSE IF ~SameBag(Seenable(strokes), Seenable(Due)) THEN "the strokes drawn are not the edges, each once"
  ELSE IF Trace.color # Colour THEN "a line does not have its colour"
  ELSE IF w = "graph" /\ (Rc.o.graph.len # 2 \/ ~Dots(Rc.o.graph.vs)) THEN "a picture is not its edges and its vertices"
  ELSE IF w = "es" THEN Others ELSE ""
Finish ==
  /\ st = "draw" /\ j > Len(Trace.pts)
  /\ IF Wrong = "" THEN Seen(i) ELSE Bad(i, Wrong)
  /\ st' = "done" /\ UNCHANGED <<i, w, j, last, strokes>>
Next == Follow \/ Finish
=============================================================================
