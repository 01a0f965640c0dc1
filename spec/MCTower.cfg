INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SmallRight
CONSTANTS SmallTo = 4
 Words <- AllWords
 TallWords <- FewWords
 Heights <- Low
 Tall <- High
 Huge = 6000000
