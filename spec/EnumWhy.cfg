INIT Init
NEXT NextWhy
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "some"
          DocSet = "docs"
