CONSTANTS B = 4 L = 2 M = 7
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
