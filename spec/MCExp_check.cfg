SPECIFICATION Spec
CONSTANTS N = 4 X = "check" M = 2 Roles = "right"
INVARIANTS Predicted NothingLost
PROPERTY Finishes
