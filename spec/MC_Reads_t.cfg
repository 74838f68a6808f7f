INIT Init
NEXT Next
INVARIANT Unchanged
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3 Echo = FALSE
