CONSTANTS Q = 3
N = 4
T0 = 1
INIT Init
NEXT Next
INVARIANTS HonestCorrect NeverWrong ThresholdHolds
CHECK_DEADLOCK FALSE
