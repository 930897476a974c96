CONSTANT Cfgs <- CfgsQ
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
