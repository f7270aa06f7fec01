INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Kept
CHECK_DEADLOCK FALSE
