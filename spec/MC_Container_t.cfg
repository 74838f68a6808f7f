CONSTANTS MaxR = 5  MaxC = 4  MaxLen = 6
INIT Init
NEXT Next
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
