CONSTANTS N = 3  NK = 4  NB = 3  Kinds = {"ups"}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
