INIT Init
NEXT Next
INVARIANT Determined
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4 Seeds = {0, 3, 6, 9}
