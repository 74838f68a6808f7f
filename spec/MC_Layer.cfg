CONSTANTS
  MaxUnits = 3
  MaxChan = 2
  MaxSide = 3
  MaxKern = 2
  Salts = {1}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
