CONSTANTS B = 3 L = 2 M = 5
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
