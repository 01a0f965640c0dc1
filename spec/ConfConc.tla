------------------------------ MODULE ConfConc ------------------------------
(***************************************************************************)
(* Trace validation of concurrent executions (C18).  Each trace is what    *)
(* one of the concurrent callers did and saw; it has to be a behaviour of  *)
(* the sequential specification on its own.                                *)
(***************************************************************************)
EXTENDS EncOps, DecOps, TokOps, StreamOps, Json, CSV, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pos, st
vars == <<tr, pos, st>>

Step(s, h, o) ==
  IF o.k \in EncKinds THEN EncStep(s, o)
  ELSE IF o.k \in DecKinds THEN DecStep(s, o)
  ELSE IF o.k \in {"treset", "tnext"} THEN TokOpStep(s, o)
  ELSE IF o.k = "open" THEN Ok(0)
  ELSE IF s < 0 THEN Ok(s) ELSE StreamStep(s, h, o)

\* A step the specification does not allow is noted, and the trace ends there.
Reject == CSVWrite("%1$s %2$s", <<Traces[tr].id, pos>>, IOEnv.REJ)
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ st = <<>>
Next == /\ pos >= 1 /\ pos <= Len(Traces[tr].ops)
        /\ LET r == TLCEval(Step(st, Traces[tr].ops[1], Traces[tr].ops[pos])) IN
           IF r.ok THEN pos' = pos + 1 /\ st' = r.st
           ELSE Reject /\ pos' = 0 /\ st' = st
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
=============================================================================
