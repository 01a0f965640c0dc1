INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "any"
          DocSet = "trees2"
