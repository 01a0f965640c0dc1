INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "all"
          Flags <- AllFlags
          Layouts <- NoLay
          Colours = {"off"}
