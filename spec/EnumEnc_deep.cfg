INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS TypeSet = "deep"
          Flags <- OneFlag
          Layouts <- NoLay
          Colours = {"off"}
