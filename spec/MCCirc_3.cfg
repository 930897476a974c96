SPECIFICATION Spec
CONSTANTS N = 4  D0 = 1  Q = 10007  Phases = 3  Variant = "right"
INVARIANTS Sharings CheckOk Drained
PROPERTY Finishes
CHECK_DEADLOCK TRUE
