CONSTANTS Steps = 40  H = 65536
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
