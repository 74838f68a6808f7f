CONSTANTS N = 6  NK = 1  NB = 4  Kinds = {"block"}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
