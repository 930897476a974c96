SPECIFICATION Spec
CONSTANT Forget = FALSE
INVARIANTS AcceptedIffConsistent SameResult
