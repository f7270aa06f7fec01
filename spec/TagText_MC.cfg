INIT Init
NEXT Next
INVARIANTS InvPlaced InvHandlers InvPlain InvLen InvBreaks InvShift
CHECK_DEADLOCK FALSE
