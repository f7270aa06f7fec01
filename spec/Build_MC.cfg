INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS InvLine InvPlain InvStyle InvEdit InvSame
