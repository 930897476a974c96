CONSTANTS
  Sends = 2
  Fail = 1
  Drain = "wait"
  Order = "write"
  MarkAfterFailure = FALSE
SPECIFICATION Spec
INVARIANTS InOrder Drained Quiet
PROPERTY CloseReturns
