CONSTANTS N = 3  NK = 7  NB = 5  Kinds = {"ups"}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
