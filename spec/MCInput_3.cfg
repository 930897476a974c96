CONSTANTS Q = 5
N = 3
D0 = 1
Counts <- C201
Samples = 4
Variant = "ok"
INIT Init
NEXT Next
INVARIANTS Correct Sizes OwnShareOnly Empty Progress
CHECK_DEADLOCK TRUE
