CONSTANTS
  Sends = 3
  Fail = 99
  Drain = "wait"
  Order = "pop"
  MarkAfterFailure = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Drained Quiet
PROPERTY CloseReturns
