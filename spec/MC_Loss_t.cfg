CONSTANTS Parts <- PartsT  TParts <- TPartsT
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
