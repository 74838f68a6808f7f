INIT Init
NEXT Next
INVARIANTS OnceInOrder Counted
CHECK_DEADLOCK FALSE
CONSTANTS MaxRec = 3 MaxSize = 4 Depth = 3
