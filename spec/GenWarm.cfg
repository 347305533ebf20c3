INIT GenInit
NEXT GenNext
INVARIANT Emit
CONSTANT Opts <- Opt2
CHECK_DEADLOCK FALSE
