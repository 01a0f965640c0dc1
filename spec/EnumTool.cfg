INIT Init
NEXT EnumNext
INVARIANTS Clean Late
CHECK_DEADLOCK FALSE
CONSTANTS Flags = {"", "false"}
          Nos = {"(unset)", "", "1"}
          Forces = {"(unset)", "", "1"}
          Terms = {"xterm", "dumb"}
