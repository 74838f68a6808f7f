CONSTANTS Steps = 7  H = 65536
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
