INIT Init
NEXT Next
CONSTANTS MaxN = 3 MaxT = 3
INVARIANTS InvComplete InvOn
CHECK_DEADLOCK FALSE
