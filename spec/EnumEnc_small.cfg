INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "small"
          Flags <- AllFlags
          Layouts <- NoLay
          Colours = {"off"}
