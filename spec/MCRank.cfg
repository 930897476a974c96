CONSTANTS Q = 3 R = 4 C = 2
INIT Init
NEXT Next
INVARIANT Agrees
