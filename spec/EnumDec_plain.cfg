INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "plain"
          DocSet = "docs"
