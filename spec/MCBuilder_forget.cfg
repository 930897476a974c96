SPECIFICATION Spec
CONSTANT Forget = TRUE
INVARIANTS AcceptedIffConsistent SameResult
