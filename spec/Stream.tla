------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The stream decoder, abstractly: a text, how it ends (end of stream, or  *)
(* the reader's own error), and the number of bytes consumed so far.  How  *)
(* the text is cut into reads does not appear, which is the property.      *)
(***************************************************************************)
EXTENDS Decode

\* Scanning from index i in blocks, stopping early: texts can be long.
Block == 256
RECURSIVE ScanFrom(_, _, _)
ScanFrom(b, s, i) ==
  IF s[3] # 0 \/ s[1] = "X" \/ i > Len(b) THEN s
  ELSE ScanFrom(b, TLCEval(FoldLeft(ScanByte, s, Sub(b, i, i + Block - 1))), i + Block)
RECURSIVE WsEnd(_, _)
\* Index of the last white space byte of the run that starts at i (i - 1 if none).
WsEnd(b, i) ==
  IF i > Len(b) THEN Len(b)
  ELSE LET s == Sub(b, i, i + Block - 1)
           n == LeadWs(s)
       IN  IF n = Len(s) THEN WsEnd(b, i + Block) ELSE i + n - 1

\* What comes next after p bytes.  own: the stream ends with the reader's own
\* error and not with the end of the stream.
\*   ok (value in i..j) | eof | own | uneof | syntax
Ahead(b, p, own) ==
  LET i == WsEnd(b, p + 1) + 1 IN
  IF i > Len(b) THEN [r |-> IF own THEN "own" ELSE "eof", i |-> i, j |-> i - 1]
  ELSE
    LET s == ScanFrom(b, <<"W", PInit, 0, i, 0>>, i) IN
    IF s[3] # 0 THEN [r |-> "ok", i |-> i, j |-> s[3]]
    ELSE IF s[1] = "X" THEN [r |-> "syntax", i |-> i, j |-> i - 1]
    ELSE IF ~own /\ s[1] \in NumFinal /\ PStep(s[2], K_NUM)[1] = "D" THEN [r |-> "ok", i |-> i, j |-> Len(b)]
    ELSE [r |-> IF own THEN "own" ELSE "uneof", i |-> i, j |-> i - 1]
=============================================================================
