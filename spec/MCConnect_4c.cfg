SPECIFICATION Spec
CONSTANTS N = 4 Cycles = 2 Order = "up" PortOf = "pair" Barrier = TRUE
INVARIANTS Paired OncePerCycle Complete
PROPERTY Terminates
