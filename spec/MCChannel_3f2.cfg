CONSTANTS
  Sends = 3
  Fail = 2
  Drain = "wait"
  Order = "write"
  MarkAfterFailure = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Drained Quiet
PROPERTY CloseReturns
