CONSTANTS Q = 2
N = 5
T0 = 1
INIT Init
NEXT Next
INVARIANTS HonestCorrect NeverWrong ThresholdHolds
CHECK_DEADLOCK FALSE
