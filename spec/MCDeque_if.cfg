CONSTANTS
  Prog = 2
  Wait = "if"
  Notify = "one"
  Spurious = FALSE
SPECIFICATION Spec
INVARIANTS NeverEmpty Fifo Exclusive NoLostWakeup
