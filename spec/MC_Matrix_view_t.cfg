CONSTANTS N = 7  NK = 5  NB = 1  Kinds = {"view"}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
