INIT Init
NEXT EnumNext
CHECK_DEADLOCK FALSE
