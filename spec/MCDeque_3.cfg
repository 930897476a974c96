CONSTANTS
  Prog = 3
  Wait = "while"
  Notify = "one"
  Spurious = FALSE
SPECIFICATION Spec
INVARIANTS NeverEmpty Fifo Exclusive NoLostWakeup
