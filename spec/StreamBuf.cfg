SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agrees Offset View Room Whole_
CONSTANTS Alphabet = {49, 32, 34, 91, 44, 93}
          MaxLen = 4
          MinBuf = 2
          MinRead = 1
          Fault = "none"
