CONSTANTS B = 3 L = 3 M = 7
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
