INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "some"
          DocSet = "docs"
