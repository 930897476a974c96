CONSTANTS
  Prog = 1
  Wait = "while"
  Notify = "none"
  Spurious = FALSE
SPECIFICATION Spec
INVARIANTS NeverEmpty Fifo Exclusive NoLostWakeup
