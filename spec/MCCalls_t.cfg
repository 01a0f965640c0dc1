INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NoSharing NotFree AsAlone
CONSTANTS Kinds = {"mar", "enc", "nest", "merr", "werr", "dec"}
          N = 4
          EarlyPut = FALSE
