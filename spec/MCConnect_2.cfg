SPECIFICATION Spec
CONSTANTS N = 2 Cycles = 3 Order = "up" PortOf = "pair" Barrier = TRUE
INVARIANTS Paired OncePerCycle Complete
PROPERTY Terminates
