SPECIFICATION Spec
CONSTANTS N = 5 X = "check" M = 2 Roles = "right"
INVARIANTS Predicted NothingLost
PROPERTY Finishes
