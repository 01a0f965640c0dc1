------------------------------ MODULE ConfTool ------------------------------
(* Recorded runs of cmd/jc. *)
EXTENDS Tool, Json, CSV, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pos
Reject == CSVWrite("%1$s %2$s", <<Traces[tr].id, pos>>, IOEnv.REJ)
\* run: the file the run before wrote, where it was one.
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ run = <<>> /\ src = "" /\ tgt = "" /\ pc = ""
Follows(o) == "chain" \in DOMAIN o => o.fb = run
ConfNext == /\ pos >= 1 /\ pos <= Len(Traces[tr].ops) /\ UNCHANGED <<tr, src, tgt, pc>>
            /\ LET o == Traces[tr].ops[pos] IN
               /\ run' = IF o.dst = "file" THEN o.fa ELSE run
               /\ IF RunOk(o) /\ Follows(o) THEN pos' = pos + 1 ELSE Reject /\ pos' = 0
=============================================================================
