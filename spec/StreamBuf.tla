----------------------------- MODULE StreamBuf ------------------------------
(***************************************************************************)
(* The stream decoder as it is built: a buffer that is filled by a reader  *)
(* which returns any number of bytes (also none) per call and its error    *)
(* with or after the last ones; values are parsed off the beginning, what  *)
(* is left is moved to the front, and the buffer grows when little space   *)
(* is free.  TLC checks that for every way of cutting the text into reads  *)
(* this machine gives what Stream says (C13): Agrees, Offset and View.     *)
(***************************************************************************)
EXTENDS Stream

CONSTANTS Alphabet, MaxLen,    \* the texts
          MinBuf, MinRead,     \* size of the first buffer; space that makes it grow
          Fault                \* "none", or a faulty design

VARIABLES b, own,              \* the text, and whether the reader ends with its own error
          del, given,          \* bytes delivered by the reader; it has returned its error (later ones are the end of the stream)
          buf, cap, rem,       \* the buffer, its capacity, index before the unread part
          err,                 \* the reader's error, kept: "none" "eof" "own"
          off,                 \* the reported offset
          pc, res, val,        \* "idle" "parse" "read"; what Decode returned last
          pos, calls           \* end of the last value (as Stream has it), calls still to make
vars == <<b, own, del, given, buf, cap, rem, err, off, pc, res, val, pos, calls>>

Unread == From(buf, rem + 1)
Texts_ == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == /\ b \in Texts_ /\ own \in BOOLEAN
        /\ del = 0 /\ given = FALSE /\ buf = <<>> /\ cap = 0 /\ rem = 0 /\ err = "none" /\ off = 0
        /\ pc = "idle" /\ res = "" /\ val = <<>> /\ pos = 0 /\ calls = MaxLen + 2

Call == /\ pc = "idle" /\ calls > 0 /\ calls' = calls - 1
        /\ pc' = "parse"
        /\ pos' = IF res = "ok" THEN Ahead(b, pos, own).j ELSE pos
        /\ UNCHANGED <<b, own, del, given, buf, cap, rem, err, off, res, val>>

Return(r, v, rm, n) ==
  /\ pc' = "idle" /\ res' = r /\ val' = v /\ rem' = rm /\ off' = off + n
  /\ UNCHANGED <<b, own, del, given, buf, cap, err, pos, calls>>

\* Making room: unread bytes to the front, and more space if needed.
Refill ==
  LET keep == Unread
      c == IF cap = 0 THEN MinBuf ELSE IF cap - Len(keep) < MinRead THEN 2 * cap ELSE cap
  IN  /\ pc' = "read" /\ buf' = keep /\ rem' = 0 /\ cap' = c
      /\ UNCHANGED <<b, own, del, given, err, off, res, val, pos, calls>>

TryParse ==
  /\ pc = "parse"
  /\ LET u == Unread
         x == First(u, TRUE)
         partial == /\ x.r = "ok" /\ x.n = Len(u) /\ IsDigit(u[Len(u)]) /\ Scan(u)[1] \in NumFinal /\ Scan(u)[3] = 0
                    /\ err # "eof" /\ Fault # "number"
         \* nothing, or no complete value
         more == IF err = "none" THEN Refill
                 ELSE Return(IF u # <<>> /\ err = "eof" /\ Fault # "eof" THEN "uneof" ELSE err, <<>>, rem, 0)
     IN
     IF u = <<>> THEN more
     ELSE IF x.r = "err" THEN Return("syntax", <<>>, rem, 0)
     ELSE IF x.r = "ok" /\ ~partial THEN
       LET ws == LeadWs(From(u, x.n + 1)) IN
       Return("ok", Sub(u, 1, x.n), rem + x.n + ws, IF Fault = "offset" THEN x.n ELSE x.n + ws)
     ELSE more

\* One read: n bytes, and perhaps the error with the last ones.
Read ==
  /\ pc = "read"
  /\ IF Len(buf) < cap /\ err = "none"
     THEN \E n \in 0..(cap - Len(buf)), e \in BOOLEAN :
            /\ del + n <= Len(b)
            /\ e => del + n = Len(b)
            /\ n > 0 \/ e                      \* empty reads change nothing
            /\ buf' = buf \o Sub(b, del + 1, del + n) /\ del' = del + n
            /\ given' = (given \/ e)
            /\ err' = IF e /\ ~(Fault = "lost" /\ n > 0) THEN (IF own /\ ~given THEN "own" ELSE "eof") ELSE err
            /\ UNCHANGED <<b, own, cap, rem, off, pc, res, val, pos, calls>>
     ELSE /\ pc' = "parse" /\ rem' = LeadWs(buf) /\ off' = off + LeadWs(buf)
          /\ UNCHANGED <<b, own, del, given, buf, cap, err, res, val, pos, calls>>

Next == Call \/ TryParse \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Returned == pc = "idle" /\ res # ""
\* What Decode returned is what Stream says comes next.
Agrees ==
  Returned => LET x == Ahead(b, pos, own) IN
              /\ res = x.r
              /\ res = "ok" => val = Sub(b, x.i, x.j)
Offset == Returned => LET p == IF res = "ok" THEN Ahead(b, pos, own).j ELSE pos IN off >= p /\ off <= WsEnd(b, p + 1)
View == Returned => Unread = Sub(b, off + 1, del)
\* The reader is asked for no more than fits, and bytes are never lost.
Room == Len(buf) <= cap
Whole_ == pc # "read" => off + Len(Unread) = del
\* Every call returns.
Ends == (pc = "parse") ~> (pc = "idle")
=============================================================================
