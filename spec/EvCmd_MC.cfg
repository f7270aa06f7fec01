INIT Init
NEXT Next
INVARIANT Frame
INVARIANT Involution
VIEW View
CHECK_DEADLOCK FALSE
