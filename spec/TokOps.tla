------------------------------- MODULE TokOps -------------------------------
(***************************************************************************)
(* The recorded steps of a tokenizer (C16): "treset" gives it a text (the  *)
(* first one is the constructor), "tnext" is one call of Next with         *)
(* everything it reports.  A tokenizer that was given a text and one that   *)
(* reached the end are the zero value in every field they show.            *)
(***************************************************************************)
EXTENDS Tokens, Verdict

\* st = [b, n, end, T]: text, tokens delivered, "" | "end" | "err", and Tokenize(b)
TokReset(o) == [b |-> o.b, n |-> 0, end |-> "", T |-> Tokenize(o.b)]

TokClass(b, i) ==
  CASE b[i] = QUOTE -> "str" [] b[i] = 110 -> "null" [] b[i] = 116 -> "true" [] b[i] = 102 -> "false"
    [] b[i] \in Structural -> "" [] OTHER -> "num"

\* Token number n directly followed by something that cannot follow it: it may
\* be reported as invalid itself.
Adjacent(s, n) ==
  LET j == s.T.toks[n][3] IN
  s.T.toks[n][1] \in {K_NUM, K_LIT, K_STR} /\ j < Len(s.b) /\ ~IsSpace(s.b[j + 1])
  /\ s.b[j + 1] \notin {COMMA, COLON, RBRACE, RBRACK}

TokenOk(s, o) ==
  LET n == s.n + 1  t == s.T.toks[n] IN
  /\ n <= Len(s.T.toks)
  /\ n <= s.T.upto
  /\ o.val = Sub(s.b, t[2], t[3])
  /\ o.delim = (IF t[1] \in Structural THEN t[1] ELSE 0)
  /\ o.cls = TokClass(s.b, t[2])
  /\ n <= Len(s.T.want) => LET w == s.T.want[n] IN o.dp = w.dp /\ o.ix = w.ix /\ o.key = w.key
  /\ t[1] = K_STR => LET u == TLCEval(Unquote(o.val)) IN o.uq = u /\ o.au = o.pre \o u
TokEndOk(s, o) ==          \* Next returned false
  LET n == s.n IN
  IF ~o.er THEN s.end # "err" /\ o.zero /\ n = Len(s.T.toks) /\ s.T.lexok
  ELSE \/ s.end = "err"
       \/ s.end = "" /\ n >= Len(s.T.want) /\ ~s.T.valid
       \/ s.end = "" /\ ~s.T.valid /\ n + 1 = Len(s.T.want) /\ Adjacent(s, n + 1)
TokOpStep(s, o) ==
  IF o.pn THEN Bad(s)
  ELSE IF o.k = "treset" THEN If(o.zero, TokReset(o))
  ELSE IF o.more THEN If(s.end = "" /\ ~o.er /\ TokenOk(s, o), [s EXCEPT !.n = @ + 1])
  ELSE If(o.same /\ TokEndOk(s, o), [s EXCEPT !.end = IF o.er THEN "err" ELSE "end"])
=============================================================================
