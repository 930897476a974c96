CONSTANTS
  Sends = 3
  Fail = 0
  Drain = "wait"
  Order = "write"
  MarkAfterFailure = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Drained Quiet
PROPERTY CloseReturns
