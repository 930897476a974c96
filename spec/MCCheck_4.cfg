CONSTANTS N = 4
D0 = 1
Variant = "ok"
INIT Init
NEXT Next
INVARIANTS EveryoneKnows Empty Progress
CHECK_DEADLOCK TRUE
