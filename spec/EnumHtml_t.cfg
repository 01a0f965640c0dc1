INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Longest = 6
