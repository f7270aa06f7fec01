INIT Init
NEXT Next
INVARIANT InvKept
INVARIANT InvShown
INVARIANT InvExport
CHECK_DEADLOCK FALSE
