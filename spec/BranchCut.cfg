INIT Init
NEXT Next
INVARIANTS Sound Kept Right Goes
PROPERTIES Measure Grows
CHECK_DEADLOCK FALSE
