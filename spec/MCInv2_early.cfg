SPECIFICATION Spec
CONSTANTS W = 12  Variant = "early"
INVARIANTS Inverse 

