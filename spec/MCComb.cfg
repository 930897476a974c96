CONSTANT MaxM = 6
INIT Init
NEXT Next
INVARIANTS WalkIsCombs EveryOnce PositionsRight
