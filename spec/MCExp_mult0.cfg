SPECIFICATION Spec
CONSTANTS N = 4 X = "mult" M = 0 Roles = "right"
INVARIANTS Predicted NothingLost
PROPERTY Finishes
