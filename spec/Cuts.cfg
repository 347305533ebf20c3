INIT Init
NEXT Next
INVARIANT Report
CONSTANT Bound <- NoBound
