INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS InvRows InvNamed InvPlaced InvMoved InvLine InvShift
