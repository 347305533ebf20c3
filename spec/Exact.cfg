INIT Init
NEXT Next
INVARIANT Report
INVARIANT TypeOK
CONSTANT Bound <- MyBound
