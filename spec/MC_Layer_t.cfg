CONSTANTS
  MaxUnits = 4
  MaxChan = 3
  MaxSide = 4
  MaxKern = 3
  Salts = {1}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
