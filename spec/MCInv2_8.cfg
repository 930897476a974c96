SPECIFICATION Spec
CONSTANTS W = 8  Variant = "right"
INVARIANTS Inverse Right
PROPERTY Ends
