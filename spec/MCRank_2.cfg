CONSTANTS Q = 2 R = 4 C = 3
INIT Init
NEXT Next
INVARIANT Agrees
