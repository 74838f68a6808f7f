INIT Init
NEXT Next
INVARIANTS OnceInOrder Counted
CHECK_DEADLOCK FALSE
CONSTANTS MaxRec = 5 MaxSize = 6 Depth = 3
