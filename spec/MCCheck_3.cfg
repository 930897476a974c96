CONSTANTS N = 3
D0 = 1
Variant = "ok"
INIT Init
NEXT Next
INVARIANTS EveryoneKnows Empty Progress
CHECK_DEADLOCK TRUE
