INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Max = 40
