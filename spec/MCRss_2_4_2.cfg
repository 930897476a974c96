CONSTANTS Q = 2
N = 4
T0 = 2
INIT Init
NEXT Next
INVARIANTS HonestCorrect NeverWrong ThresholdHolds
CHECK_DEADLOCK FALSE
