INIT Init
NEXT Next
INVARIANTS Same Plain
CHECK_DEADLOCK FALSE
