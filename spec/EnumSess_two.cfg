INIT Init
NEXT Next
VIEW View
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
          L = 4
          Sets = {"nohtml","indent","flat","color","nosort"}
          Vals_ = {"all","empty","failmap"}
          Fails = {0, 1}
