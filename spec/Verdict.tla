------------------------------ MODULE Verdict ------------------------------
(* The outcome of checking one recorded step: whether the specification      *)
(* allows it, and the abstract state after it.                               *)
Ok(s) == [ok |-> TRUE, st |-> s]
Bad(s) == [ok |-> FALSE, st |-> s]
If(b, s) == [ok |-> b, st |-> s]
=============================================================================
