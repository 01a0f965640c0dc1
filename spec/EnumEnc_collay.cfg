INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "all"
          Flags <- OneFlag
          Layouts <- Lays
          Colours = {"full", "part"}
