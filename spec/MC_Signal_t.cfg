INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Samples = {1, 2, 3, 4, 5, 6, 7, 8, 9, 16} Steps = 5
