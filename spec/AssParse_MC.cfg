INIT Init
NEXT Next
INVARIANTS InvHeaders InvMode InvRecover InvIssues InvSpans InvText
CHECK_DEADLOCK FALSE
