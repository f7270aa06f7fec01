INIT Init
NEXT Next
INVARIANTS InvOutcome InvStuck InvCycle InvOrder InvNamed InvSame
CHECK_DEADLOCK FALSE
