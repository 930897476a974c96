CONSTANTS Q = 5
N = 4
D0 = 1
Batches <- B21
Samples = 8
Variant = "ok"
INIT Init
NEXT Next
INVARIANTS Correct OnlyMasked Empty Progress
CHECK_DEADLOCK TRUE
