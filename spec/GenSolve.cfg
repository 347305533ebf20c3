INIT GenInit
NEXT GenNext
INVARIANT Emit
CONSTANT Opts <- Opt4
CHECK_DEADLOCK FALSE
