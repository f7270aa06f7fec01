INIT Init
NEXT Next
VIEW View
INVARIANTS InvWhole InvCut InvBuf
CHECK_DEADLOCK FALSE
