INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SmallRight AllRising
CONSTANTS SmallTo = 4
 Sizes <- Few
 Faults <- AllFaults
