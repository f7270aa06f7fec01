INIT Init
NEXT Next
INVARIANTS InvTime InvColour InvHex InvUU InvMinus
CHECK_DEADLOCK FALSE
