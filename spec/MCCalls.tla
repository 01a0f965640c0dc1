------------------------------ MODULE MCCalls -------------------------------
(* The design-level model of Calls, without the history.                     *)
EXTENDS Calls
View == <<kind, pc, own, buf, pool, nbuf, out>>
=============================================================================
