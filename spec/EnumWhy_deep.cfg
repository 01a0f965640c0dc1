INIT Init
NEXT NextWhy
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "deep"
          DocSet = "docs"
