------------------------------- MODULE Labels -------------------------------
(* What a user calls the vertices must not matter.  A state is an instance as
   the user presents it (labels, order of the edges, vertices without edges);
   the transitions change the presentation, and the answers, translated back
   to vertices, stay what they were:
     Relabel, AddEdgeless   the same answers
     Reorder                the same optimal cost (ties may fall differently)
     LoseRoot               a root without edges has no tour                *)
EXTENDS Recs

VARIABLES i, ph, base
vars == <<i, ph, base>>
Rc(k) == Recs[k]

Init == i \in 1..NR /\ ph = "start" /\ base = <<>>
Fail == ph = "start" /\ Has(Rc(i), "err") /\ ph' = "err" /\ UNCHANGED <<i, base>>
Present == ph = "start" /\ ~Has(Rc(i), "err") /\ ph' = "base" /\ base' = Rc(i).base /\ UNCHANGED i
Relabel == ph = "base" /\ Rc(i).relabel = base /\ ph' = "relabelled" /\ UNCHANGED <<i, base>>
AddEdgeless == ph = "relabelled" /\ Rc(i).edgeless = base /\ ph' = "edgeless" /\ UNCHANGED <<i, base>>
Reorder == ph = "edgeless" /\ Rc(i).reorder = base.solve /\ ph' = "reordered" /\ UNCHANGED <<i, base>>
LoseRoot == ph = "reordered" /\ Rc(i).noroot /\ ph' = "ok" /\ UNCHANGED <<i, base>>
Next == Fail \/ Present \/ Relabel \/ AddEdgeless \/ Reorder \/ LoseRoot

Known(s) == \A v \in Rng(s) : v \in Verts(i)
Report ==
  CASE ph = "err" -> Bad(i, "raised " \o Rc(i).err)
    [] ph = "base" -> \A f \in DOMAIN base.tours : Known(base.tours[f]) \/ Bad(i, f \o ": vertices that are not in the graph")
    [] ph = "ok" -> Seen(i)
    [] OTHER -> TRUE
=============================================================================
