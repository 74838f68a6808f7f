CONSTANTS Grid = 64  Units = {1, 2, 7, 50}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
