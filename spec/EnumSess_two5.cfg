INIT Init
NEXT Next
VIEW View
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
          L = 5
          Sets = {"nohtml","indent","color"}
          Vals_ = {"all","failmap","failarr"}
          Fails = {0}
