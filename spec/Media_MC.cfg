INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS InvFresh InvEmbeds InvCut InvBack InvClear InvNone
