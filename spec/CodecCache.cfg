SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RightCodec
PROPERTY NeverWritten
CONSTANTS Callers = {c1, c2, c3}
          Types = {t1, t2, t3}
          Uses = 1
          InPlace = FALSE
