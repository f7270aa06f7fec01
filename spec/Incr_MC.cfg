INIT Init
NEXT Next
INVARIANTS InvDelta InvAdjust InvLine
CHECK_DEADLOCK FALSE
