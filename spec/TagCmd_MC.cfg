INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS InvWhole InvPut InvStill InvPlain InvGone InvTold InvKept InvSame InvWrap
