SPECIFICATION Spec
CONSTANTS N = 3  D0 = 1  Q = 10007  Phases = 1  Variant = "short"
INVARIANTS Sharings CheckOk Drained
PROPERTY Finishes
CHECK_DEADLOCK TRUE
