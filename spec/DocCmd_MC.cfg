INIT Init
NEXT Next
INVARIANT Frame
VIEW View
CHECK_DEADLOCK FALSE
