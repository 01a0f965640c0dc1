INIT Init
NEXT ConfNext
CHECK_DEADLOCK FALSE
