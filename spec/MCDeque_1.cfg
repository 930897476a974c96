CONSTANTS
  Prog = 1
  Wait = "while"
  Notify = "one"
  Spurious = FALSE
SPECIFICATION Spec
INVARIANTS NeverEmpty Fifo Exclusive NoLostWakeup
