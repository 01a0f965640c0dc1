INIT Init
NEXT EnumNext
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Kinds = {"mar", "enc", "nest", "merr", "werr", "dec"}
          N = 3
          EarlyPut = FALSE
