CONSTANTS Q = 5
N = 7
D0 = 2
Batches <- B102
Samples = 1
Variant = "ok"
INIT Init
NEXT Next
INVARIANTS Correct OnlyMasked Empty Progress
CHECK_DEADLOCK TRUE
