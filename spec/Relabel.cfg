INIT Init
NEXT Next
INVARIANTS Found
PROPERTIES Settled
CHECK_DEADLOCK FALSE
