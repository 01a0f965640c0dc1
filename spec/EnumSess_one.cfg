INIT Init
NEXT Next
VIEW View
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS N = 1
          L = 4
          Sets = {"html","nohtml","sort","nosort","trust","flat","indent","prefix","color","nocolor"}
          Vals_ = {"all","str","failmap","boommap","failarr"}
          Fails = {0, 1, 2}
