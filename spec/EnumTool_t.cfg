INIT Init
NEXT EnumNext
INVARIANTS Clean Late
CHECK_DEADLOCK FALSE
CONSTANTS Flags = {"", "true", "false"}
          Nos = {"(unset)", "", "0", "1"}
          Forces = {"(unset)", "", "0", "1"}
          Terms = {"(unset)", "xterm", "dumb"}
