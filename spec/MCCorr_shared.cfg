CONSTANTS N = 4
D0 = 1
Calls = 3
Variant = "shared"
INIT Init
NEXT Next
INVARIANTS Matches Fresh
CHECK_DEADLOCK FALSE
