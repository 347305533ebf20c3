INIT GenInit
NEXT HardNext
INVARIANT Emit
CONSTANT Opts <- Opt4
CHECK_DEADLOCK FALSE
