SPECIFICATION Spec
CONSTANTS N = 2 Cycles = 2 Order = "up" PortOf = "pair" Barrier = FALSE
INVARIANTS Paired OncePerCycle Complete
PROPERTY Terminates
