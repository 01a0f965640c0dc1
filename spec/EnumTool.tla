------------------------------ MODULE EnumTool ------------------------------
(* Every run of the machine over all flags, environments, sources and        *)
(* targets, for replay into the real command.                                *)
EXTENDS Tool, Json, CSV, IOUtils
CONSTANTS Flags, Nos, Forces, Terms
VARIABLES fl, written
Init == \E text \in Texts_, s \in Sources, t \in Targets, p \in Flags, c \in Flags,
           no \in Nos, force \in Forces, term \in Terms :
          /\ (Readable(s) \/ text = D_mixed)
          /\ src = s /\ tgt = t /\ pc = "read" /\ fl = <<p, c>> /\ written = FALSE
          /\ run = Start(text, s, t, p # "false", c # "false", no, force, term)
EnumNext == IF pc = "done"
            THEN /\ ~written /\ written' = TRUE /\ UNCHANGED <<run, src, tgt, pc, fl>>
                 /\ CSVWrite("%1$s", <<ToJson([run |-> run, src |-> src, tgt |-> tgt, p |-> fl[1], c |-> fl[2]])>>, IOEnv.CASES)
            ELSE Next /\ UNCHANGED <<fl, written>>
=============================================================================
