------------------------------ MODULE GenGraph ------------------------------
EXTENDS GenBase
\* instances for the graph algorithms: no further options
MyOpts(h) == [seed |-> R(0..1000),
              loops |-> IF Coin(2, 3) THEN <<>> ELSE SelectSeq([v \in 1..h.n |-> v - 1], LAMBDA v : Coin(1, 2)),
              iso |-> Coin(1, 4)]
=============================================================================
