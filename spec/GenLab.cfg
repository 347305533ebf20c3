INIT GenInit
NEXT GenNext
INVARIANT Emit
CONSTANT Opts <- MyOpts
CONSTANT NOPS = 9
CHECK_DEADLOCK FALSE
