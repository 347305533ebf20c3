INIT GenInit
NEXT GenNext
INVARIANT Emit
CONSTANT Opts <- MyOpts
CHECK_DEADLOCK FALSE
