CONSTANTS M = 7 W = 10
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
