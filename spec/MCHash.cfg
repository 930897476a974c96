CONSTANTS WB = 8 Cut = 3 MaxLen = 100 MaxPiece = 60
INIT Init
NEXT Next
INVARIANT Same
CHECK_DEADLOCK FALSE
