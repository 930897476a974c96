SPECIFICATION Spec
CONSTANTS W = 14  Variant = "right"
INVARIANTS Inverse Right

