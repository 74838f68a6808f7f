CONSTANTS Depth = 3  Cat <- CatT
INIT Init
NEXT Next
INVARIANTS Sound Refusal
CHECK_DEADLOCK FALSE
