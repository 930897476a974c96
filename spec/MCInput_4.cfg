CONSTANTS Q = 5
N = 4
D0 = 1
Counts <- C2011
Samples = 1
Variant = "ok"
INIT Init
NEXT Next
INVARIANTS Correct Sizes OwnShareOnly Empty Progress
CHECK_DEADLOCK TRUE
