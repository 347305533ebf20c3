INIT GenInit
NEXT GenNext
INVARIANT Emit
CONSTANT Opts <- Opt3
CHECK_DEADLOCK FALSE
