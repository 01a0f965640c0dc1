INIT Init
NEXT EnumNext
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Kinds = {"mar", "enc", "merr"}
          N = 4
          EarlyPut = FALSE
