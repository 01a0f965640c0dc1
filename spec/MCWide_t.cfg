INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SmallRight AllRising
CONSTANTS SmallTo = 7
 Sizes <- More
 Faults <- AllFaults
