SPECIFICATION Spec
CONSTANTS N = 5 Cycles = 1 Order = "up" PortOf = "pair" Barrier = TRUE
INVARIANTS Paired OncePerCycle Complete
PROPERTY Terminates
