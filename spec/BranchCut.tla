------------------------------ MODULE BranchCut ------------------------------
(* The design of the exact solver, explored in every small world: two triangles,
   the root in one of them, joined by some connecting edges.

   open    the open nodes: edges fixed to one and to zero
   rows    the cutting planes in force:  x(E(S)) <= y(S) - y(k)  as <<S, k>>, k off
           the root (disjoint-tour rule), and <<S, Root>>: x(E(S)) <= y(S) - 1
           (cycle covers; the root is always visited)
   far     the vertices that cost covers forbid
   best    the cost of the best known tour

   A relaxation is any cheapest set of disjoint cycles, one of them through the
   root, whose vertices collect the quota together, within the fixings of the
   node, the rows and the covers.  Fractional relaxations appear as branching,
   which is possible at every node, on any edge that is not fixed (at most DEPTH
   times on the way to a node, except when nothing else is possible).  Any rule
   may come at any time, tours may be found at any time by someone else.

   Variant plants one mistake: "none", "root" (a cost cover for the root itself),
   "at" (covers at the bound, not above it), "rhs" (right-hand side one too
   small), "quota" (cycle covers for pieces that meet the quota), "fixed" (a
   subtour with all its edges fixed is given up), "scaled" (covers compare with
   half the cost: the scaled objective of the solver).                        *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Variant, DEPTH, JOINS

V == 0..5
Root == 0
Tri == {{0, 1}, {1, 2}, {0, 2}, {3, 4}, {4, 5}, {3, 5}}
Joins == {{u, v} : u \in 0..2, v \in 3..5}
Inf == 1000

VARIABLES E, c, Q, Cycles, dist,      \* the world: edges, costs, quota, and what follows from them
          open, rows, far, best
world == <<E, c, Q, Cycles, dist>>
vars == <<E, c, Q, Cycles, dist, open, rows, far, best>>

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Cost(F) == Sum(c, F)
VertsOf(F) == UNION F
Deg(F, v) == Cardinality({e \in F : v \in e})
RECURSIVE Cl(_, _)
Cl(F, X) == LET Y == X \cup UNION {e \in F : e \cap X # {}} IN IF X = Y THEN X ELSE Cl(F, Y)
In(F, S) == {e \in F : e \subseteq S}
\* disjoint cycles through the root (one prize per vertex)
CyclesOf == {F \in SUBSET E : /\ \A v \in VertsOf(F) : Deg(F, v) = 2
                            /\ Root \in VertsOf(F)}
IsTour(F) == Cl(F, {Root}) = VertsOf(F)
Tours == {F \in Cycles : IsTour(F) /\ Cardinality(VertsOf(F)) >= Q}
Opt == IF Tours = {} THEN Inf ELSE CHOOSE x \in {Cost(F) : F \in Tours} : \A F \in Tours : Cost(F) >= x

(* least cost of a path from the root, and twice of it: the least it can cost to visit a vertex *)
RECURSIVE Bf(_, _)
Bf(d, k) == IF k = 0 THEN d ELSE
  Bf([v \in V |-> LET S == {d[v]} \cup {d[u] + c[{u, v}] : u \in {u \in V : {u, v} \in E}} IN CHOOSE x \in S : \A y \in S : x <= y], k - 1)
Dist == Bf([v \in V |-> IF v = Root THEN 0 ELSE Inf], 5)
Beyond(b) == {v \in V : /\ v # Root \/ Variant = "root"
                        /\ IF Variant = "at" THEN 2 * dist[v] >= b
                           ELSE IF Variant = "scaled" THEN 4 * dist[v] > b
                           ELSE IF Variant = "root" THEN 2 * dist[v] > b \/ v = Root
                           ELSE 2 * dist[v] > b}

Rhs(r, F) == Cardinality(r[1] \cap VertsOf(F)) - (IF r[2] \in VertsOf(F) THEN 1 ELSE 0) - (IF Variant = "rhs" THEN 1 ELSE 0)
Holds(r, F) == Cardinality(In(F, r[1])) <= Rhs(r, F)
Allowed(F) == (\A r \in rows : Holds(r, F)) /\ far \cap VertsOf(F) = {}
Fits(n, F) == n.one \subseteq F /\ n.zero \cap F = {}
Relax(n) == {F \in Cycles : Fits(n, F) /\ Cardinality(VertsOf(F)) >= Q /\ Allowed(F)}
Least(X) == {F \in X : \A G \in X : Cost(F) <= Cost(G)}

Init ==
  /\ E \in {Tri \cup J : J \in {J \in SUBSET Joins : Cardinality(J) \in 2..JOINS}}
  /\ c \in {[e \in E |-> IF e \subseteq 3..5 THEN t ELSE IF e = j THEN h ELSE 1] : t \in {0, 2}, j \in E \cap Joins, h \in {1, 3}}
  /\ Q \in {3, 4, 6}
  /\ Cycles = TLCEval(CyclesOf) /\ dist = TLCEval(Dist)
  /\ open = {[one |-> {}, zero |-> {}]} /\ rows = {} /\ far = {} /\ best = Inf

NewBest(x) == /\ best' = x
              /\ far' = far \cup Beyond(x)
(* a node goes when its relaxation is empty or not cheaper than the best tour *)
Prune(n) == /\ \A F \in Relax(n) : Cost(F) >= best
            /\ open' = open \ {n} /\ UNCHANGED <<world, rows, far, best>>
(* a relaxation that is a tour *)
Integral(n) == \E F \in Least(Relax(n)) :
  /\ Cost(F) < best /\ IsTour(F)
  /\ NewBest(Cost(F)) /\ open' = open \ {n} /\ UNCHANGED <<world, rows>>
(* a relaxation in pieces: rows for all vertices of a piece off the root, or, if the root's piece lacks the quota, for that *)
Separate(n) == \E F \in Least(Relax(n)) :
  /\ Cost(F) < best /\ ~IsTour(F)
  /\ LET S == Cl(F, {Root}) IN
     \/ \E v \in VertsOf(F) \ S : LET X == Cl(F, {v}) IN rows' = rows \cup {<<X, k>> : k \in X}
     \/ Cardinality(S) < (IF Variant = "quota" THEN Q + 1 ELSE Q) /\ rows' = rows \cup {<<S, Root>>}
  /\ UNCHANGED <<world, open, far, best>>
(* branching: on any edge that is free, but never deeper than DEPTH *)
Branch(n) == /\ Cardinality(n.one) + Cardinality(n.zero) < DEPTH
             /\ \E F \in Least(Relax(n)) : /\ Cost(F) < best
                                           /\ \E e \in F \ n.one : open' = (open \ {n}) \cup {[n EXCEPT !.one = @ \cup {e}], [n EXCEPT !.zero = @ \cup {e}]}
             /\ UNCHANGED <<world, rows, far, best>>
GiveUp(n) == /\ Variant = "fixed"
             /\ \E F \in Least(Relax(n)) : Cost(F) < best /\ ~IsTour(F) /\ n.one # {} /\ n.one \subseteq F
             /\ open' = open \ {n} /\ UNCHANGED <<world, rows, far, best>>
(* somebody finds a better tour *)
Found == \E F \in Tours : Cost(F) < best /\ open # {} /\ NewBest(Cost(F)) /\ UNCHANGED <<world, open, rows>>

Next == (\E n \in open : Prune(n) \/ Integral(n) \/ Separate(n) \/ Branch(n) \/ GiveUp(n)) \/ Found

(* ---- what the design promises *)
\* no tour that is better than the best known is lost
Sound == \A T \in Tours : Cost(T) < best => (Allowed(T) /\ \E n \in open : Fits(n, T))
\* and none that is as good as the best known is forbidden (what cost covers promise)
Kept == \A T \in Tours : Cost(T) <= best => far \cap VertsOf(T) = {}
\* at the end the best known tour is a cheapest one
Right == open = {} => best = Opt
\* the search goes on until no node is open
Goes == open = {} \/ ENABLED Next
\* every step makes progress (so every behaviour ends): fewer or deeper nodes, more rows or a better tour
Progress == [][\/ best' < best \/ rows # rows' \/ open' # open]_vars
Weight(n) == 10 ^ (DEPTH - Cardinality(n.one) - Cardinality(n.zero))
RECURSIVE Mass(_)
Mass(O) == IF O = {} THEN 0 ELSE LET n == CHOOSE n \in O : TRUE IN Weight(n) + Mass(O \ {n})
Measure == [][\/ best' < best
              \/ best' = best /\ rows \subseteq rows' /\ rows # rows'
              \/ best' = best /\ rows' = rows /\ Mass(open') < Mass(open)]_vars
Grows == [][rows \subseteq rows' /\ far \subseteq far' /\ best' <= best]_vars
=============================================================================
