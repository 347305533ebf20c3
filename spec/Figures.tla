------------------------------- MODULE Figures -------------------------------
(* The figure of the heuristics: for each of the two cost functions a picture
   with a column for every kappa, in it a box for every heuristic over the gaps
   of its runs; the lower half repeats the upper one on another scale.
   The rows and their gaps are those of the summary tables.                    *)
EXTENDS Agg

FAlg == {"bfs_extension_collapse", "bfs_path_extension_collapse", "suurballes_extension_collapse", "suurballes_path_extension_collapse"}
FKept(fn) == {x \in DOMAIN H : /\ \A y \in 1..(x - 1) : Dup(H[y]) # Dup(H[x])
                               /\ H[x].fn = fn /\ H[x].algorithm \in FAlg /\ HGap(H[x]) # No}
FDue(fn) == {<<<<x, 0>>, <<Short[H[x].algorithm], H[x].kappa, HGap(H[x])>>>> : x \in FKept(fn)}
\* the points of the boxes of one half, numbered
FPoints(f, row) == {<<<<b, k>>, <<f.boxes[b].name, f.boxes[b].pts[k][1], f.boxes[b].pts[k][2]>>>> :
                      <<b, k>> \in UNION {{<<b, k>> : k \in DOMAIN f.boxes[b].pts} : b \in {b \in DOMAIN f.boxes : f.boxes[b].row = row}}}
Times(Pts, y) == Cardinality({x \in Pts : x[2] = y})
SameBag(Pa, Pb) == \A y \in {x[2] : x \in Pa \cup Pb} : Times(Pa, y) = Times(Pb, y)
FName(fn) == "tspwplib_" \o fn \o "_heuristics.pdf"
Fns == {"EUC_2D", "MST"}
FigWrongOne(f, fn) ==
  IF \E b \in DOMAIN f.boxes : ~f.boxes[b].same \/ f.boxes[b].row = 0 \/ ~f.boxes[b].all THEN "a box is incomplete"
  ELSE IF \E b, c \in DOMAIN f.boxes : (f.boxes[b].name = f.boxes[c].name) # (f.boxes[b].color = f.boxes[c].color) THEN "heuristics are not told apart by their colours"
  ELSE IF \E b, c \in DOMAIN f.boxes : b # c /\ f.boxes[b].legend /\ f.boxes[c].legend /\ f.boxes[b].name = f.boxes[c].name THEN "a heuristic is in the legend twice"
  ELSE IF ~SameBag(FPoints(f, 1), FDue(fn)) THEN "the boxes do not show the gaps of the heuristics"
  ELSE IF ~SameBag(FPoints(f, 2), FDue(fn)) THEN "the lower half does not show the gaps of the heuristics"
  ELSE ""
FigWrong ==
  IF Has(Rc, "err") THEN "raised " \o Rc.err
  ELSE IF Rc.o.err # "" THEN "the figure raised " \o Rc.o.err
  ELSE IF Len(Rc.o.figs) # 2 \/ {Rc.o.figs[x].name : x \in 1..2} # {FName(fn) : fn \in Fns} THEN "there is not one figure for each cost function"
  ELSE IF ~Rc.o.dir \/ \E x \in 1..2 : ~Rc.o.figs[x].inside THEN "a figure is not in the directory asked for"
  ELSE LET W == {fn \in Fns : FigWrongOne(Rc.o.figs[CHOOSE x \in 1..2 : Rc.o.figs[x].name = FName(fn)], fn) # ""} IN
       IF W = {} THEN "" ELSE LET fn == CHOOSE fn \in W : TRUE IN FigWrongOne(Rc.o.figs[CHOOSE x \in 1..2 : Rc.o.figs[x].name = FName(fn)], fn)
FNext == bad = "?" /\ bad' = FigWrong /\ UNCHANGED i
=============================================================================
