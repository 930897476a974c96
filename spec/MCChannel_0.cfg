CONSTANTS
  Sends = 0
  Fail = 99
  Drain = "wait"
  Order = "write"
  MarkAfterFailure = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Drained Quiet
PROPERTY CloseReturns
