SPECIFICATION Spec
CONSTANTS N = 3 Cycles = 2 Order = "up" PortOf = "pair" Barrier = TRUE
INVARIANTS Paired OncePerCycle Complete
PROPERTY Terminates
