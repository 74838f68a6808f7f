INIT Init
NEXT Next
INVARIANT Paired
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 5
