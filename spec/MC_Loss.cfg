CONSTANTS Parts <- PartsQ  TParts = {0, 1}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
