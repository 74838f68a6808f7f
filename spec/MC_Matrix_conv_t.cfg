CONSTANTS N = 6  NK = 6  NB = 1  Kinds = {"conv"}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
