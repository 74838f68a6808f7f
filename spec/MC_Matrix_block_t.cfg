CONSTANTS N = 12  NK = 1  NB = 6  Kinds = {"block"}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
