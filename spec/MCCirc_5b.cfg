SPECIFICATION Spec
CONSTANTS N = 5  D0 = 1  Q = 10007  Phases = 5  Variant = "right"
INVARIANTS Sharings CheckOk Drained
PROPERTY Finishes
CHECK_DEADLOCK TRUE
