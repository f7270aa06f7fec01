INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS InvExact InvMax InvSame InvGone InvTold
