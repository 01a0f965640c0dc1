------------------------------ MODULE EnumText ------------------------------
(***************************************************************************)
(* All texts up to a length over several small alphabets, each with what   *)
(* has to be observed on it: whether it is a document (alone, as an array  *)
(* element, as a member value), the values of the stream it is and how     *)
(* that stream ends, and its tokens.  Texts that cannot begin a document   *)
(* are extended by at most one more byte.  The harness replays every case  *)
(* into the real code (C06, C09, C13, C14, C16, C22).                      *)
(***************************************************************************)
EXTENDS Stream, Tokens, Reformat, Json, CSV, IOUtils
CONSTANTS Alphas        \* a set of <<alphabet, length>>

VARIABLES w, al, dead

\* The values of the stream: <<<<i, j>>, ...>> and how it ends.
RECURSIVE Values(_, _, _, _)
Values(b, p, own, acc) ==
  LET x == TLCEval(Ahead(b, p, own)) IN
  IF x.r = "ok" THEN Values(b, x.j, own, Append(acc, <<x.i, x.j>>))
  ELSE [vs |-> acc, end |-> x.r]

ZeroRun(b) == \E i \in 1..(Len(b) - 1) : b[i] = ZERO /\ IsDigit(b[i + 1])
CaseOf(b) ==
  LET T == TLCEval(Tokenize(b))
      e == TLCEval(Values(b, 0, FALSE, <<>>))
      o == TLCEval(Values(b, 0, TRUE, <<>>))
  IN  [b |-> b, valid |-> T.valid,
       arr |-> ValidDoc(<<LBRACK>> \o b \o <<RBRACK>>),
       obj |-> ValidDoc(<<LBRACE, QUOTE, 107, QUOTE, COLON>> \o b \o <<RBRACE>>),
       vals |-> e.vs, end |-> e.end, ownvals |-> Len(o.vs), ownend |-> o.end,
       toks |-> T.want, sound |-> Len(T.want) = Len(T.toks) /\ T.lexok,
       dup |-> ZeroRun(b),
       lay |-> IF T.valid THEN IndentOf(b, <<62>>, <<46, 9>>) ELSE <<>>]

Output(b) == CSVWrite("%1$s", <<ToJson(CaseOf(b))>>, IOEnv.CASES)
StillAlive(b) == Values(b, 0, FALSE, <<>>).end # "syntax"

Init == w = <<>> /\ al \in Alphas /\ dead = 0
Next == /\ Len(w) < al[2]
        /\ dead < 2
        /\ \E c \in al[1] :
             /\ w' = Append(w, c)
             /\ dead' = IF dead = 1 THEN 2 ELSE IF StillAlive(w') THEN 0 ELSE 1
             /\ Output(w')
        /\ al' = al
=============================================================================
