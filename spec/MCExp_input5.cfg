SPECIFICATION Spec
CONSTANTS N = 5 X = "input" M = 2 Roles = "right"
INVARIANTS Predicted NothingLost
PROPERTY Finishes
