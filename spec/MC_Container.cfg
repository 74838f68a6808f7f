CONSTANTS MaxR = 3  MaxC = 3  MaxLen = 4
INIT Init
NEXT Next
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
