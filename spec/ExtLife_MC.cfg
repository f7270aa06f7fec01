INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Steady
CHECK_DEADLOCK FALSE
