INIT Init
NEXT Next
INVARIANTS InvRecover InvValid InvClean
CHECK_DEADLOCK FALSE
