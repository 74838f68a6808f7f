INIT Init
NEXT Next
INVARIANT Alone
CHECK_DEADLOCK FALSE
CONSTANTS Kinds = {"forward", "acts", "tap", "ms", "ce", "acc"}
