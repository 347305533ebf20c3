------------------------------ MODULE Rename ------------------------------
(* Renaming: a vertex machine that gives every new old-name the next free
   number, in order of appearance.  The recorded maps must be its states.   *)
EXTENDS Recs

VARIABLES i, part
R(k) == Recs[k]
RECURSIVE Learn(_, _)
Learn(known, s) == IF s = <<>> THEN known
                   ELSE Learn(IF Head(s) \in Rng(known) THEN known ELSE Append(known, Head(s)), Tail(s))
RECURSIVE Flat(_)
Flat(es) == IF es = <<>> THEN <<>> ELSE <<es[1][1], es[1][2]>> \o Flat(Tail(es))
Num(known, x) == (CHOOSE j \in DOMAIN known : known[j] = x) - 1
AsMap(known) == [j \in DOMAIN known |-> <<j - 1, known[j]>>]
Ren(known, es) == [j \in DOMAIN es |-> <<Num(known, es[j][1]), Num(known, es[j][2])>>]

J(k) ==
  LET r == R(k) F == Learn(<<>>, Flat(r.oes)) G == Learn(<<>>, r.ovs) H == Learn(G, r.ovs2) IN
  IF ~r.same THEN "renaming changed the given edges"
  ELSE IF r.map # AsMap(F) THEN "the renaming does not number the vertices 0,1,2,... in order of appearance"
  ELSE IF r.ne # Ren(F, r.oes) THEN "the renamed edges are not the images of the given edges"
  ELSE IF r.oldedges # r.oes \/ r.oldedgesl # r.oes THEN "the old edges of the renamed edges are not the given edges"
  ELSE IF r.newedges # r.ne THEN "looking the edges up again gives other new edges"
  ELSE IF r.ov # [j \in DOMAIN r.nv |-> F[r.nv[j] + 1]] \/ r.back # r.nv THEN "old and new vertices are not inverse to each other"
  ELSE IF r.map2 # AsMap(G) THEN "renaming a list of vertices does not number them in order of appearance"
  ELSE IF r.map3 # AsMap(H) \/ r.next # Len(H) \/ r.got # [j \in DOMAIN r.ovs2 |-> Num(H, r.ovs2[j])]
       THEN "find-or-insert does not return the known number or the next free one"
  ELSE IF Len(r.nc) # Len(r.oc) \/ {<<Norm(<<e[1], e[2]>>), e[3]>> : e \in Rng(r.nc)} # {<<Norm(<<Num(F, e[1]), Num(F, e[2])>>), e[3]>> : e \in Rng(r.oc)}
       THEN "the costs of the renamed graph are not those of the old edges"
  ELSE IF Rng(r.np) # {<<Num(F, p[1]), p[2]>> : p \in Rng(r.op)} THEN "the prizes of the renamed graph are not those of the old vertices"
  ELSE IF r.refused = 0 THEN "a cost for a pair that is not an edge was accepted"
  ELSE ""
Init == i \in 1..NR /\ part = 0
Next == part = 0 /\ part' = 1 /\ UNCHANGED i
Report == IF part = 0 THEN Seen(i)
          ELSE IF Has(R(i), "err") THEN Bad(i, "raised " \o R(i).err) ELSE LET j == J(i) IN j = "" \/ Bad(i, j)
=============================================================================
