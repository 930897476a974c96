SPECIFICATION Spec
CONSTANTS N = 3  D0 = 1  Q = 10007  Phases = 1  Variant = "right"
INVARIANTS Sharings CheckOk Drained
PROPERTY Finishes
CHECK_DEADLOCK TRUE
