INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SmallRight
CONSTANTS SmallTo = 6
 Words <- AllWords
 TallWords <- FewWords
 Heights <- LowMore
 Tall <- High
 Huge = 6000000
