INIT Init
NEXT Next
INVARIANTS Spaces Nesting
CHECK_DEADLOCK FALSE
