INIT Init
NEXT Next
INVARIANT Determined
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3 Seeds = {1, 6}
