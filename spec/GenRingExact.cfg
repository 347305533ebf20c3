INIT GenInit
NEXT RingNext
INVARIANT Emit
CONSTANT Opts <- MyOpts
CHECK_DEADLOCK FALSE
