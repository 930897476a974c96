SPECIFICATION Spec
CONSTANTS N = 4 X = "mult" M = 3 Roles = "short"
INVARIANTS Predicted NothingLost
PROPERTY Finishes
