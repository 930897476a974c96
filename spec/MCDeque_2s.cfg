CONSTANTS
  Prog = 2
  Wait = "while"
  Notify = "one"
  Spurious = TRUE
SPECIFICATION Spec
INVARIANTS NeverEmpty Fifo Exclusive NoLostWakeup
