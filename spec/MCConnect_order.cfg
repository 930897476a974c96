SPECIFICATION Spec
CONSTANTS N = 3 Cycles = 1 Order = "mixed" PortOf = "pair" Barrier = TRUE
INVARIANTS Paired OncePerCycle Complete
PROPERTY Terminates
