CONSTANTS
  Prog = 2
  Wait = "while"
  Notify = "empty"
  Spurious = FALSE
SPECIFICATION Spec
INVARIANTS NeverEmpty Fifo Exclusive NoLostWakeup
