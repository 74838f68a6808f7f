CONSTANTS Depth = 3  Cat <- CatQ
INIT Init
NEXT Next
INVARIANTS Sound Refusal
CHECK_DEADLOCK FALSE
