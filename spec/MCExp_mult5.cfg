SPECIFICATION Spec
CONSTANTS N = 5 X = "mult" M = 3 Roles = "right"
INVARIANTS Predicted NothingLost
PROPERTY Finishes
