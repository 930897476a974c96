CONSTANTS
  Sends = 3
  Fail = 1
  Drain = "wait"
  Order = "write"
  MarkAfterFailure = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Drained Quiet
PROPERTY CloseReturns
