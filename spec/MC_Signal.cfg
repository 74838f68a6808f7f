INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Samples = {1, 2, 3, 4, 5, 8} Steps = 1
