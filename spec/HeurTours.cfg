INIT Init
NEXT Next
INVARIANT Report
VIEW NoCost
CONSTANT Bound <- MyBound
