-------------------------------- MODULE Extend --------------------------------
(* The extension heuristics as machines on tours; a recorded result is right if
   a behaviour of the machine ends in it.
     gain   insert the vertex of greatest unitary gain while the gain is above
            the average of the first round
     until  the same without the average, until the quota is met
     path   replace paths by paths of smallest loss while below the average of
            the first round (one single choice is always taken first)
     puntil the same without the average, until the quota is met
   For paths of more than two edges any improving path with fewest edges may
   be taken and the average rule is not decided.                             *)
EXTENDS Tours

VARIABLES i, op, t, avg, rnd, done
vars == <<i, op, t, avg, rnd, done>>

Res(k, o) == R(k).res
Step(k, o) == IF o = "loss" THEN 1 ELSE R(k).step
Depth(k, o) == IF o = "loss" THEN 2 ELSE R(k).depth
Start(k) == R(k).tour

NoAvg == [n |-> 0, s |-> 0]
Idle == op = "" /\ avg = NoAvg
Init == i \in 1..NR /\ op = "" /\ t = <<>> /\ avg = NoAvg /\ rnd = 0 /\ done = FALSE
Pick == /\ op = "" /\ ~Has(R(i), "err")
        /\ op' = R(i).op /\ t' = Start(i) /\ avg' = NoAvg /\ rnd' = 0 /\ done' = FALSE /\ UNCHANGED i
Fail == op = "" /\ Has(R(i), "err") /\ op' = "err" /\ UNCHANGED <<i, t, avg, rnd, done>>
Stop == done' = TRUE /\ UNCHANGED <<i, op, t, avg, rnd>>
Go(u) == t' = u /\ rnd' = rnd + 1 /\ done' = FALSE /\ UNCHANGED <<i, op>>

(* unitary gain *)
SumGain(k, s) == SumOver([v \in Outside(k, s) |-> Gain(k, s, v)], Outside(k, s))
NoInf(k, s) == \A v \in Outside(k, s) : Gain(k, s, v) < INF
GainStep ==
  /\ op = "gain" /\ ~done /\ avg # [n |-> -1, s |-> 0]
  /\ LET b == BestGain(i, t) a == IF rnd = 0 /\ b > 0 /\ NoInf(i, t) THEN [n |-> Cardinality(Outside(i, t)), s |-> SumGain(i, t)] ELSE avg IN
     IF b = 0 THEN Stop
     ELSE IF rnd = 0 /\ ~NoInf(i, t) THEN   \* an infinite average: nothing is above it (and nothing else is said)
        (Stop \/ (\E u \in BestInserts(i, t) : Go(u) /\ avg' = [n |-> 1, s |-> 0]))
     ELSE LET ab == IF b >= INF THEN {TRUE} ELSE Above(b, a.s, a.n) IN
        \/ TRUE \in ab /\ \E u \in BestInserts(i, t) : Go(u) /\ avg' = a
        \/ FALSE \in ab /\ Stop
UntilStep ==
  /\ op = "until" /\ ~done
  /\ IF TourPrize(i, t) >= R(i).quota \/ BestGain(i, t) = 0 THEN Stop
     ELSE \E u \in BestInserts(i, t) : Go(u) /\ avg' = avg

(* path replacement *)
Places(k, o, s) == {p \in 0..(Steps(s) - 1) : Candidates(k, s, p, Step(k, o), Depth(k, o)) # {}}
LossAt(k, o, s, p) == Min({Loss(k, Internal(s, p, Step(k, o)), q) : q \in Candidates(k, s, p, Step(k, o), Depth(k, o))})
BestSwaps(k, o, s) ==
  LET P == Places(k, o, s) l == [p \in P |-> LossAt(k, o, s, p)] m == Min({l[p] : p \in P}) IN
  UNION {{Swap(s, p, Step(k, o), q) : q \in {q \in Candidates(k, s, p, Step(k, o), Depth(k, o)) : Loss(k, Internal(s, p, Step(k, o)), q) = m}}
           : p \in {p \in P : l[p] = m}}
AnySwaps(k, o, s) ==
  UNION {{Swap(s, p, Step(k, o), q) : q \in Candidates(k, s, p, Step(k, o), Depth(k, o))} : p \in Places(k, o, s)}
Wide(k, o) == Depth(k, o) > 2
Room(k, o, s) == Step(k, o) < Steps(s) /\ rnd < R(k).n
\* every path that breadth-first search can offer is improving at some place
Sure(k, o, s) == \E p \in 0..(Steps(s) - 1) : SureCandidate(k, s, p, Step(k, o), Depth(k, o))
Below(b, s, n) == IF Abs(n * b - s) <= Abs(s) \div 20000 + 1 THEN {TRUE, FALSE} ELSE {n * b < s}
PathStep ==
  /\ op \in {"path", "loss"} /\ ~done
  /\ IF ~Room(i, op, t) \/ Places(i, op, t) = {} THEN Stop
     ELSE IF Wide(i, op) THEN Stop \/ (\E u \in AnySwaps(i, op, t) : Go(u) /\ avg' = avg)
     ELSE LET P == Places(i, op, t) l == [p \in P |-> LossAt(i, op, t, p)] m == Min({l[p] : p \in P})
              a == IF rnd = 0 THEN [n |-> Cardinality(P), s |-> SumOver(l, P)] ELSE avg
              bl == IF rnd = 0 /\ Cardinality(P) = 1 THEN {TRUE} ELSE Below(m, a.s, a.n)
          IN \/ TRUE \in bl /\ \E u \in BestSwaps(i, op, t) : Go(u) /\ avg' = a
             \/ FALSE \in bl /\ Stop
PuntilStep ==
  /\ op = "puntil" /\ ~done
  /\ IF TourPrize(i, t) >= R(i).quota \/ ~Room(i, op, t) \/ Places(i, op, t) = {} THEN Stop
     ELSE IF Wide(i, op) THEN (~Sure(i, op, t) /\ Stop) \/ (\E u \in AnySwaps(i, op, t) : Go(u) /\ avg' = avg)
     ELSE \E u \in BestSwaps(i, op, t) : Go(u) /\ avg' = avg

Next == Pick \/ Fail \/ GainStep \/ UntilStep \/ PathStep \/ PuntilStep

(* what every result must be, whatever the machine *)
Judge(k, o) ==
  LET r == Res(k, o) s == Start(k) IN
  IF ~IsTour(k, r) THEN o \o ": the extended tour is not a simple closed tour of the graph"
  ELSE IF r[1] # s[1] THEN o \o ": the extended tour does not start where the given one does"
  ELSE IF o \in {"gain", "until", "loss"} /\ ~IsSub(s, r) THEN o \o ": the extension lost or moved a vertex of the tour"
  ELSE IF TourPrize(k, r) < TourPrize(k, s) THEN o \o ": the extension lowered the prize"
  ELSE ""
Report ==
  CASE op = "" -> TRUE
    [] op = "err" -> Bad(i, "raised " \o R(i).err)
    [] ~done /\ rnd = 0 -> LET j == Judge(i, op) IN j = "" \/ Bad(i, j)
    [] done -> (t # Res(i, op)) \/ Seen(i)
    [] OTHER -> TRUE
=============================================================================
