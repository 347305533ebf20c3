INIT Init
NEXT Next
INVARIANT Report
CHECK_DEADLOCK FALSE
