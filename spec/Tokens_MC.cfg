INIT Init
NEXT Next
INVARIANTS InvCover InvPlace InvNewline
CHECK_DEADLOCK FALSE
