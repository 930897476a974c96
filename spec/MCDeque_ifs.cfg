CONSTANTS
  Prog = 1
  Wait = "if"
  Notify = "one"
  Spurious = TRUE
SPECIFICATION Spec
INVARIANTS NeverEmpty Fifo Exclusive NoLostWakeup
