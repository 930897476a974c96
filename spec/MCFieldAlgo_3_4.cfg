CONSTANTS M = 3 W = 4
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
