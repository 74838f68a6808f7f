CONSTANTS MaxMod = 40  Edges = 3
Limits = {1, 2, 3, 4, 5, 7, 8, 10, 11, 64, 100, 255, 256, 1000, 65535, 65536, 1000003, 1073741823, 1073741824, 2147483646, 2147483647}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
