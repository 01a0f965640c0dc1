SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agrees Offset View Room Whole_
PROPERTY Ends
CONSTANTS Alphabet = {49, 32, 34, 92, 91, 44, 93}
          MaxLen = 5
          MinBuf = 3
          MinRead = 2
          Fault = "none"
