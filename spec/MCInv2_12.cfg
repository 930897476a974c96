SPECIFICATION Spec
CONSTANTS W = 12  Variant = "right"
INVARIANTS Inverse Right

