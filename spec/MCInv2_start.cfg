SPECIFICATION Spec
CONSTANTS W = 12  Variant = "start"
INVARIANTS Inverse 

