CONSTANTS M = 7 W = 8
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
