CONSTANTS
  Sends = 2
  Fail = 99
  Drain = "early"
  Order = "write"
  MarkAfterFailure = TRUE
SPECIFICATION Spec
INVARIANTS InOrder Drained Quiet
PROPERTY CloseReturns
