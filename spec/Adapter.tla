------------------------------ MODULE Adapter -------------------------------
(***************************************************************************)
(* The adapter helper/fatihcolor (C21).  A set of colours gives every      *)
(* class nothing (<<>>) or a list of attributes (<<attrs>>); the process-  *)
(* wide switch and each colour's own switch are deliberately not part of   *)
(* what a conversion depends on.                                           *)
(***************************************************************************)
EXTENDS EncOps

Classes == <<"bool", "bytes", "time", "null", "num", "str", "key", "punc", "text">>
Sgr(as) == <<ESC, LBRACK>> \o Flat(Join([i \in 1..Len(as) |-> <<Digits(as[i])>>], <<59>>)) \o <<109>>
Carried(c) == IF c = <<>> THEN <<>> ELSE Sgr(c[1])
\* The core set a (non-nil) set converts to.
Core(set) ==
  LET s(i) == Carried(set[i]) IN
  [on |-> TRUE, bool |-> s(1), bytes |-> s(2), time |-> s(3), null |-> s(4), num |-> s(5), str |-> s(6),
   key |-> s(7), punc |-> s(8), text |-> s(9), brk |-> <<>>, brc |-> <<>>, com |-> <<>>, col |-> <<>>]

\* State: the set, whether there is one, and what was last converted.
NewSet(o) == [set |-> o.set, some |-> ~o.none, col |-> NoColors]
ConvOk(s, o) ==
  /\ ~o.pn
  /\ o.on = s.some
  /\ s.some => \A i \in 1..Len(Classes) : o.got[i] = Carried(s.set[i])
  /\ o.same                                         \* sources and switches as before
  /\ \A i \in 1..Len(Classes) : s.set[i] # <<>> => o.own[i] = Sgr(s.set[i][1])
AdapterStep(s, o) ==
  CASE o.k = "fset" -> Ok(NewSet(o))
    [] o.k = "fadd" -> Ok([s EXCEPT !.set[o.i] = <<@[1] \o o.at>>])
    [] o.k = "fput" -> Ok([s EXCEPT !.set[o.i] = o.c])
    [] o.k = "fswitch" -> Ok(s)
    [] o.k = "fconv" -> If(ConvOk(s, o), [s EXCEPT !.col = IF s.some THEN Core(s.set) ELSE NoColors])
    [] o.k = "enc" -> If(EncOk([o EXCEPT !.col = s.col]), s)
=============================================================================
