----------------------------- MODULE StreamOps -----------------------------
(***************************************************************************)
(* The recorded steps of a stream decoder (C13).  The first step ("open")  *)
(* gives the text, cut into reads in some way; each "snext" is a call of   *)
(* Decode with the destination's type and contents, what came back, the    *)
(* reported offset, how much the reader had delivered, and what the view   *)
(* of the unread data contains.                                            *)
(***************************************************************************)
EXTENDS Stream, Verdict

\* st: bytes consumed, up to the end of the last value returned.
\* The offset lies in the white space after it, and the unread view holds
\* exactly what was delivered beyond the offset.
\* (h.huge: a text too long to be recorded as it is, with long runs of one
\* byte shortened in the same way everywhere; o.same then tells whether the
\* view is the part of the text between the offset and what was delivered.)
Consumed(b, p, h, o) ==
  /\ o.off >= p /\ o.off <= WsEnd(b, p + 1)
  /\ o.same
  /\ ~h.huge =>
     /\ o.off + o.bl = o.del
     /\ LET n == Len(o.head) IN o.head = Sub(b, o.off + 1, o.off + n) /\ (n = o.bl \/ n = 64)
     /\ LET n == Len(o.tail) IN o.tail = Sub(b, o.del - n + 1, o.del) /\ (n = o.bl \/ n = 64)

StreamStep(p, h, o) ==
  LET b == h.b
      x == TLCEval(Ahead(b, p, h.own))
  IN
  IF o.pn THEN Bad(p)
  \* A number with a leading zero: an error, or two numbers.
  ELSE IF x.r = "ok" /\ x.j < Len(b) /\ IsDigit(b[x.j]) /\ IsDigit(b[x.j + 1]) THEN Ok(-1)
  ELSE IF x.r # "ok" THEN If(o.res = x.r /\ Consumed(b, p, h, o), p)
  ELSE
    LET v == Sub(b, x.i, x.j)
        r == TLCEval(Into(o.ty, TLCEval(SpanTree(v)), o.w0,
                          [b |-> v, num |-> o.num, dis |-> o.dis, ci |-> o.ci, nums |-> h.nums, times |-> h.times]))
    IN  If(/\ IF r.ok THEN o.res = "ok" /\ o.w1 = r.w ELSE o.res \notin {"ok", "eof", "own", "uneof"}
          /\ Consumed(b, x.j, h, o),
       x.j)
=============================================================================
