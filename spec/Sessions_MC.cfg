INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Isolated
CHECK_DEADLOCK FALSE
