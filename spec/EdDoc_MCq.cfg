INIT Init
NEXT Next
CONSTANTS MaxLen = 2 MaxE = 2 MaxM = 6
INVARIANTS InvChained InvLimits InvInverse InvMirror InvUtf8
CHECK_DEADLOCK FALSE
