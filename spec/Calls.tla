------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Concurrent calls that share pooled scratch memory (C18), at the level   *)
(* of the design: every call takes buffers from a pool of free ones (or    *)
(* new ones), works on them, and is suspended wherever user code is called *)
(* (custom marshalers, writers, readers, custom unmarshalers); other calls *)
(* run meanwhile, or from inside that user code.                           *)
(*                                                                         *)
(* Kinds of calls:                                                         *)
(*   mar   Marshal of a value with a custom marshaler inside               *)
(*   enc   Encode of such a value to a writer                              *)
(*   nest  Encode whose custom marshaler calls Marshal                     *)
(*   merr  Marshal whose custom marshaler fails                            *)
(*   werr  Encode whose writer fails                                       *)
(*   dec   Decode from a reader, with a custom unmarshaler                 *)
(* A call is a sequence of stages; a stage ends where user code runs.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Kinds,     \* the kinds allowed
          N,         \* number of calls
          EarlyPut   \* TRUE: a faulty design that returns the buffer before the writer has run

VARIABLES kind, pc, own, buf, pool, nbuf, out, sched
vars == <<kind, pc, own, buf, pool, nbuf, out, sched>>

Actors == 1..N
Stages(k) == CASE k \in {"mar", "merr"} -> <<"work", "tail">>
               [] k \in {"enc", "werr"} -> <<"work", "write", "end">>
               [] k = "nest" -> <<"work", "inner", "write", "end">>
               [] k = "dec" -> <<"read", "decode", "end">>
Rank(k) == CASE k = "mar" -> 1 [] k = "enc" -> 2 [] k = "nest" -> 3 [] k = "merr" -> 4 [] k = "werr" -> 5 [] k = "dec" -> 6

\* What a call produces when it runs alone.
Alone(a) == CASE kind[a] \in {"merr", "werr"} -> <<"error">>
              [] kind[a] = "nest" -> <<"ok", a, "inner", a>>
              [] OTHER -> <<"ok", a>>

Done(a) == pc[a] > Len(Stages(kind[a]))
Stage(a) == Stages(kind[a])[pc[a]]

\* Taking a buffer: any free one, or a new one.
Take(a, P(_)) ==
  \/ \E b \in pool : P(b) /\ pool' = pool \ {b} /\ nbuf' = nbuf
  \/ P(nbuf + 1) /\ nbuf' = nbuf + 1 /\ pool' = pool

Goto(a) == pc' = [pc EXCEPT ![a] = @ + 1] /\ sched' = Append(sched, a)
Same(S) == UNCHANGED S

\* Marshal / Encode up to the custom marshaler: a buffer holds half the text.
Work(a) ==
  /\ Stage(a) = "work"
  /\ Take(a, LAMBDA b : own' = [own EXCEPT ![a] = Append(@, b)] /\ buf' = [buf EXCEPT ![b] = <<"half", a>>])
  /\ Goto(a) /\ Same(<<kind, out>>)
\* The marshaler itself calls Marshal, with a marshaler of its own.
Inner(a) ==
  /\ Stage(a) = "inner"
  /\ Take(a, LAMBDA b : own' = [own EXCEPT ![a] = Append(@, b)] /\ buf' = [buf EXCEPT ![b] = <<"half", "inner", a>>])
  /\ Goto(a) /\ Same(<<kind, out>>)
\* The marshaler has returned: the text is completed.
Text(a) == IF kind[a] = "nest"
           THEN IF buf[own[a][1]] = <<"half", a>> /\ buf[own[a][2]] = <<"half", "inner", a>>
                THEN <<"ok", a, "inner", a>> ELSE <<"mixed">>
           ELSE IF buf[own[a][1]] = <<"half", a>> THEN <<"ok", a>> ELSE <<"mixed">>
Tail_(a) ==
  /\ Stage(a) = "tail"
  /\ out' = [out EXCEPT ![a] = IF kind[a] = "merr" THEN <<"error">> ELSE Text(a)]
  /\ pool' = pool \cup {own[a][1]}
  /\ own' = [own EXCEPT ![a] = <<>>]
  /\ Goto(a) /\ Same(<<kind, buf, nbuf>>)
\* The writer is entered with the complete text.
Write(a) ==
  /\ Stage(a) = "write"
  /\ buf' = [buf EXCEPT ![own[a][1]] = Text(a)]
  /\ pool' = IF kind[a] = "nest" THEN pool \cup {own[a][2]} ELSE IF EarlyPut THEN pool \cup {own[a][1]} ELSE pool
  /\ own' = [own EXCEPT ![a] = <<@[1]>>]
  /\ Goto(a) /\ Same(<<kind, out, nbuf>>)
\* The writer has looked at the text until now.
End(a) ==
  /\ Stage(a) = "end" /\ kind[a] # "dec"
  /\ out' = [out EXCEPT ![a] = IF kind[a] = "werr" THEN <<"error">> ELSE buf[own[a][1]]]
  /\ pool' = pool \cup {own[a][1]}
  /\ own' = [own EXCEPT ![a] = <<>>]
  /\ Goto(a) /\ Same(<<kind, buf, nbuf>>)
\* A decoder owns its buffer.
Read(a) ==
  /\ Stage(a) = "read"
  /\ nbuf' = nbuf + 1 /\ own' = [own EXCEPT ![a] = <<nbuf + 1>>]
  /\ Goto(a) /\ Same(<<kind, pool, out, buf>>)
Decode(a) ==
  /\ Stage(a) = "decode"
  /\ buf' = [buf EXCEPT ![own[a][1]] = <<"ok", a>>]
  /\ Goto(a) /\ Same(<<kind, own, pool, out, nbuf>>)
EndDec(a) ==
  /\ Stage(a) = "end" /\ kind[a] = "dec"
  /\ out' = [out EXCEPT ![a] = buf[own[a][1]]]
  /\ Goto(a) /\ Same(<<kind, own, pool, buf, nbuf>>)

Init == /\ kind \in [Actors -> Kinds]
        /\ \A a \in 1..(N - 1) : Rank(kind[a]) <= Rank(kind[a + 1])
        /\ pc = [a \in Actors |-> 1] /\ own = [a \in Actors |-> <<>>]
        /\ buf = [b \in 1..(2 * N) |-> <<>>] /\ pool = {} /\ nbuf = 0
        /\ out = [a \in Actors |-> <<>>] /\ sched = <<>>
Step(a) == ~Done(a) /\ (Work(a) \/ Inner(a) \/ Tail_(a) \/ Write(a) \/ End(a) \/ Read(a) \/ Decode(a) \/ EndDec(a))
Next == \E a \in Actors : Step(a)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoSharing == \A a, b \in Actors : a # b =>
               \A i \in 1..Len(own[a]), j \in 1..Len(own[b]) : own[a][i] # own[b][j]
NotFree == \A a \in Actors : \A i \in 1..Len(own[a]) : own[a][i] \notin pool
AsAlone == \A a \in Actors : Done(a) => out[a] = Alone(a)
=============================================================================
