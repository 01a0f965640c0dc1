------------------------------ MODULE EnumTerm ------------------------------
(* Every state of Terminal with the answer, for replay into the real code.   *)
EXTENDS Terminal, Json, CSV, IOUtils
EnumNext == /\ asked = "not yet" /\ Ask
            /\ CSVWrite("%1$s", <<ToJson([no |-> no, force |-> force, term |-> term, w |-> wr.w,
                                          closed |-> wr.closed, yes |-> Colour(no, force, term, wr)])>>, IOEnv.CASES)
=============================================================================
