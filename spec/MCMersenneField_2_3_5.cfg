CONSTANTS B = 2 L = 3 M = 5
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
