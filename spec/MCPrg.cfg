CONSTANT MaxOut = 6
INIT Init
NEXT Next
INVARIANTS Ordered InRange NoGap
CHECK_DEADLOCK FALSE
