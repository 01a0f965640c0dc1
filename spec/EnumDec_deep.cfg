INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "deep"
          DocSet = "docs"
