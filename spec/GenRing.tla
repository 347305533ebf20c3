------------------------------ MODULE GenRing -------------------------------
(* Large sparse instances: a ring of small gadgets, each joining two neighbouring
   corners of the ring with up to three vertices of its own.  The root is a
   corner, so every tour through it goes round the ring or stays in one of the
   two gadgets next to it, and the optimum is known although there are far too
   many tours to list.  seg[j]: the vertices of gadget j, its corners first.   *)
EXTENDS GenBase
CONSTANTS KMIN, KMAX

RingShape ==
  /\ ph = "shape" /\ ph' = "ring"
  /\ \E k \in {TLCEval(R(KMIN..KMAX))} : \E m \in {TLCEval([j \in 1..k |-> R({0, 1, 1, 2, 2, 3})])} :
       LET n == k + SumN(m) IN
       \E nm \in {TLCEval(Shuffle(0..(n - 1)))} :      \* corners first, then the gadgets' own vertices
         g' = [n |-> n, root |-> nm[1], cmode |-> TLCEval(R({"any", "any", "any", "one", "two", "zero"})),
               pmode |-> TLCEval(R({"any", "any", "rare", "unit"})),
               seg |-> [j \in 1..k |-> <<nm[j], nm[(j % k) + 1]>> \o SubSeq(nm, k + SumN(SubSeq(m, 1, j - 1)) + 1, k + SumN(SubSeq(m, 1, j)))]]
\* the edges of a gadget: a path through some of its vertices, and others
Path(s, x) == <<s[1]>> \o x \o <<s[2]>>
Ordered(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
RingEdges ==
  /\ ph = "ring" /\ ph' = "weights"
  /\ \E way \in {TLCEval([j \in DOMAIN g.seg |-> LET s == TLCEval(Shuffle({g.seg[j][q] : q \in 3..Len(g.seg[j])}))
                                                 IN SubSeq(s, 1, TLCEval(R(0..Len(s))))])} :
     \E E \in {TLCEval(UNION {LET s == g.seg[j] p == Path(s, way[j]) IN
                 {Ordered(p[q], p[q + 1]) : q \in 1..(Len(p) - 1)}
                 \cup {e \in {Ordered(s[a], s[b]) : a \in DOMAIN s, b \in DOMAIN s} : e[1] # e[2] /\ Coin(3, 5)} : j \in DOMAIN g.seg})} :
       g' = g @@ [es |-> TLCEval(Shuffle(E)),
                  tour |-> TLCEval(IF Coin(1, 5) THEN <<>> ELSE
                     LET RECURSIVE Cat(_)
                         Cat(j) == IF j > Len(g.seg) THEN <<g.seg[1][1]>> ELSE <<g.seg[j][1]>> \o way[j] \o Cat(j + 1)
                     IN Cat(1))]
RingOptions ==
  /\ ph = "opts" /\ ph' = "done"
  /\ \E o \in {TLCEval(Opts(g))} :
       g' = [n |-> g.n, root |-> g.root, quota |-> g.quota, prize |-> g.prize, edges |-> g.edges,
             label |-> g.label, tour |-> g.tour, seg |-> g.seg] @@ o
RingNext == RingShape \/ RingEdges \/ Weights \/ Quota \/ Labels \/ RingOptions
=============================================================================
