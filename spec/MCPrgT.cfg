CONSTANT MaxOut = 7
INIT Init
NEXT Next
INVARIANTS Ordered InRange NoGap
CHECK_DEADLOCK FALSE
