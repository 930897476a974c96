SPECIFICATION Spec
CONSTANTS N = 4 X = "input" M = 2 Roles = "right"
INVARIANTS Predicted NothingLost
PROPERTY Finishes
