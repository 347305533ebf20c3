------------------------------- MODULE GenCuts -------------------------------
(* Instances with fractional points in quarters: sums of cycles through the root
   (one unit in all, usually) and of cycles and doubled edges off the root.    *)
EXTENDS GenModel

Base == 4
Load(cs, v) == SumN([j \in DOMAIN cs |-> IF v \in VertsOf(cs[j].e) THEN cs[j].w ELSE 0])
ELoad(cs, e) == SumN([j \in DOMAIN cs |-> IF e \in cs[j].e THEN (IF Cardinality(cs[j].e) = 1 THEN 2 * cs[j].w ELSE cs[j].w) ELSE 0])
\* room for w more on every vertex and edge
Fits(cs, E, w) == /\ E # {} /\ \A v \in VertsOf(E) : Load(cs, v) + w <= Base
                  /\ \A e \in E : ELoad(cs, e) + (IF Cardinality(E) = 1 THEN 2 * w ELSE w) <= Base
With(cs, E, w) == IF Fits(cs, E, w) THEN Append(cs, [e |-> E, w |-> w]) ELSE cs
RootCyc(h) ==
  LET C == TLCEval(RandCyc(h, 0..(h.n - 1), 4)) IN
  IF Coin(1, 3) \/ h.root \notin VertsOf(C) THEN EdgesOf(h.tour) ELSE C
Off(h) == IF Coin(1, 3) THEN LET E == {e \in EdgeSet(h) : h.root \notin {e[1], e[2]}} IN IF E = {} THEN {} ELSE {TLCEval(R(E))}
          ELSE TLCEval(RandCyc(h, (0..(h.n - 1)) \ {h.root}, 4))
\* doubled edges at the root too
AnyC(h) == IF Coin(1, 4) THEN {TLCEval(R(EdgeSet(h)))} ELSE RootCyc(h)
Splits == {<<4>>, <<4>>, <<2, 2>>, <<1, 3>>, <<2, 1, 1>>, <<1, 1, 2>>, <<3>>, <<1, 1>>}
RECURSIVE AddAll(_, _, _, _)
AddAll(h, cs, ws, k) == IF k > Len(ws) THEN cs
  ELSE AddAll(h, With(cs, TLCEval(IF k <= 3 THEN AnyC(h) ELSE Off(h)), ws[k]), ws, k + 1)
Frac(h) ==
  LET sp == TLCEval(R(Splits))
      r == TLCEval(AddAll(h, <<>>, sp, 1))
      o == TLCEval(R({<<>>, <<1>>, <<2>>, <<4>>, <<3>>, <<1, 2>>, <<4, 4>>, <<2, 2>>}))
      RECURSIVE OffAll(_, _)
      OffAll(cs, k) == IF k > Len(o) THEN cs ELSE OffAll(With(cs, TLCEval(Off(h)), o[k]), k + 1)
  IN TLCEval(OffAll(r, 1))
\* a cycle or doubled edge over vertices not touched yet
Far(h, cs) ==
  LET free == {v \in 0..(h.n - 1) : Load(cs, v) = 0 /\ v # h.root}
      es == {e \in EdgeSet(h) : {e[1], e[2]} \subseteq free}
      C == TLCEval(RandCyc(h, free, 6))
  IN IF C # {} /\ Coin(2, 3) THEN C ELSE IF es = {} THEN C ELSE {TLCEval(R(es))}
\* a full vertex v that hangs on a root cycle of weight a < 4 and on cycles of its own: held to the root by 2a < 8
Hang(h) ==
  LET t == h.tour v == TLCEval(t[TLCEval(R(2..(Len(t) - 1)))]) a == TLCEval(R(1..3))
      T == TLCEval(LET C == RandCyc(h, 0..(h.n - 1), 3) IN IF Coin(1, 2) /\ {h.root, v} \subseteq VertsOf(C) THEN C ELSE EdgesOf(t))
      c0 == TLCEval(With(<<>>, T, a))
      rest == (0..(h.n - 1)) \ {v}
      away == {e \in EdgeSet(h) : h.root \in {e[1], e[2]} /\ v \notin {e[1], e[2]}}
      own == {e \in EdgeSet(h) : v \in {e[1], e[2]} /\ h.root \notin {e[1], e[2]}}
      RootSide(S) == IF Coin(1, 2) /\ away # {} THEN {TLCEval(R(away))}
                     ELSE LET C == TLCEval(RandCyc(h, rest, 6)) IN IF h.root \in VertsOf(C) THEN C ELSE IF away = {} THEN {} ELSE {TLCEval(R(away))}
      OwnSide(S) == IF Coin(1, 3) /\ own # {} THEN {TLCEval(R(own))}
                    ELSE LET C == TLCEval(RandCyc(h, {v} \cup TLCEval({x \in rest \ {h.root} : Coin(1, 2)}), 6)) IN
                         IF v \in VertsOf(C) THEN C ELSE IF own = {} THEN {} ELSE {TLCEval(R(own))}
      RECURSIVE Fill(_, _, _, _)
      Fill(cs, left, atroot, tries) ==
        IF left = 0 \/ tries = 0 THEN cs
        ELSE LET w == TLCEval(R(1..left)) E == TLCEval(IF atroot THEN RootSide({}) ELSE OwnSide({})) IN
             IF Fits(cs, E, w) THEN Fill(Append(cs, [e |-> E, w |-> w]), left - w, atroot, tries - 1) ELSE Fill(cs, left, atroot, tries - 1)
      c1 == TLCEval(Fill(c0, 4 - a, FALSE, 8))
      c2 == TLCEval(Fill(c1, 4 - a, TRUE, 8))
      c3 == TLCEval(With(c2, Far(h, c2), TLCEval(R({1, 2, 3, 4}))))
  IN IF Coin(2, 3) THEN TLCEval(With(c3, Far(h, c3), TLCEval(R({1, 2, 2})))) ELSE c2
Val(h, cs) == ToSeq({<<e[1], e[2], ELoad(cs, e)>> : e \in {e \in EdgeSet(h) : ELoad(cs, e) > 0}}
                    \cup {<<v, v, Load(cs, v)>> : v \in {v \in 0..(h.n - 1) : Load(cs, v) > 0}})
Opt3(h) == [den |-> Base, points |-> TLCEval(IF h.tour = <<>> THEN <<>> ELSE [k \in 1..6 |-> [val |-> Val(h, TLCEval(IF k <= 3 THEN Frac(h) ELSE Hang(h)))]])]
=============================================================================
