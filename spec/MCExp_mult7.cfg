SPECIFICATION Spec
CONSTANTS N = 7 X = "mult" M = 2 Roles = "right"
INVARIANTS Predicted NothingLost
PROPERTY Finishes
