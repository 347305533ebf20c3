INIT GenInit
NEXT GenNext
INVARIANT Emit
CONSTANT Opts <- Opts5
CHECK_DEADLOCK FALSE
