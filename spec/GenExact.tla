------------------------------ MODULE GenExact ------------------------------
EXTENDS GenBase
\* every option of the branch-and-cut solver
MyOpts(h) == [sec_dt |-> Coin(3, 4), sec_mf |-> Coin(3, 4), cc_dp |-> Coin(1, 2), cc_sp |-> Coin(1, 2),
              cyc |-> Coin(1, 2), strat |-> R(0..4), depth |-> R({-1, 0, 1, 3}),
              tail |-> R({-1, -1, 1, 2, 5}), thr |-> R({0, 10, 500}), freq |-> R({1, 1, 2, 0, 5}),
              simple |-> Coin(1, 2), heur |-> Coin(1, 2)]
=============================================================================
