INIT Init
NEXT Next
INVARIANTS InvOne InvAtomic InvSilent InvDiff
CHECK_DEADLOCK FALSE
