------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* The tokens of a text with their structure: nesting depth, position in   *)
(* the container, and whether a string is a member name.                   *)
(***************************************************************************)
EXTENDS Text

\* One open container: <<opener, commas seen>>.
\* Step over token t with parser state p: <<parser state, containers, out>>
TokStep(a, t) ==
  LET p == a[1]  cs == a[2]  n == Len(cs)
      p2 == PStep(p, t[1])
      dp == IF t[1] \in {RBRACE, RBRACK} THEN n - 1 ELSE n
      ix == IF dp = 0 THEN 0 ELSE cs[dp][2]
      key == t[1] = K_STR /\ p2[1] = "C"
      rec == [i |-> t[2], j |-> t[3], d |-> IF t[1] \in Structural THEN t[1] ELSE 0,
              dp |-> dp, ix |-> ix, key |-> key]
  IN
  IF p[1] = "X" \/ p2[1] = "X" THEN <<PDead, cs, a[3]>>
  ELSE <<p2,
         CASE t[1] \in {LBRACE, LBRACK} -> Append(cs, <<t[1], 0>>)
           [] t[1] \in {RBRACE, RBRACK} -> SubSeq(cs, 1, n - 1)
           [] t[1] = COMMA -> [cs EXCEPT ![n] = <<@[1], @[2] + 1>>]
           [] OTHER -> cs,
         Append(a[3], rec)>>

\* Bracket discipline only: TRUE while every closer matches.
MatchStep(a, t) ==
  IF ~a[1] THEN a
  ELSE IF t[1] \in {LBRACE, LBRACK} THEN <<TRUE, Append(a[2], t[1]), a[3] + 1>>
  ELSE IF t[1] \in {RBRACE, RBRACK} THEN
    IF a[2] # <<>> /\ a[2][Len(a[2])] = t[1] - 2 THEN <<TRUE, SubSeq(a[2], 1, Len(a[2]) - 1), a[3] + 1>>
    ELSE <<FALSE, a[2], a[3]>>
  ELSE <<TRUE, a[2], a[3] + 1>>

\* What a tokenizer has to deliver for b:
\*   toks   all lexical tokens <<kind, i, j>> up to the first invalid one
\*   lexok  there is no invalid (or unfinished) token
\*   want   the structured tokens of the longest sound beginning
\*   valid  b is one document
\*   upto   tokens before the first closer that does not match (all: Len(toks))
Tokenize(b) ==
  LET l == TLCEval(LexAll(b))
      f == FoldLeft(TokStep, <<PInit, <<>>, <<>>>>, l[2])
      m == FoldLeft(MatchStep, <<TRUE, <<>>, 0>>, l[2])
  IN  [toks |-> l[2], lexok |-> l[1] = "W", want |-> f[3],
       valid |-> l[1] = "W" /\ f[1][1] = "D", upto |-> m[3], match |-> m[1]]
=============================================================================
