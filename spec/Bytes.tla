------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of integers 0..255.  TLC has no characters, so *)
(* everything textual in this specification is written in terms of bytes.    *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255

LF == 10    CR == 13    TAB == 9    SP == 32    ESC == 27
QUOTE == 34 BSLASH == 92 COMMA == 44 COLON == 58 MINUS == 45 PLUS == 43
DOT == 46   ZERO == 48  NINE == 57  SLASH == 47
LBRACK == 91 RBRACK == 93 LBRACE == 123 RBRACE == 125

IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
IsSpace(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 13

\* Sub-sequence a..b (inclusive, 1-based); empty when b < a.
Sub(s, a, b) == SubSeq(s, a, IF b > Len(s) THEN Len(s) ELSE b)
From(s, a) == SubSeq(s, a, Len(s))
\* Concatenation of a sequence of byte strings (balanced, so that long texts
\* need only logarithmic depth).
RECURSIVE CatRange(_, _, _)
CatRange(ss, a, b) ==
  IF a > b THEN <<>>
  ELSE IF a = b THEN ss[a]
  ELSE LET m == (a + b) \div 2 IN CatRange(ss, a, m) \o CatRange(ss, m + 1, b)
\* TLCEval: TLC otherwise keeps function expressions unevaluated, and evaluates
\* them again at every use.
Flat(ss) == LET f == TLCEval(ss) IN CatRange(f, 1, Len(f))
MapSeq(s, Op(_)) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
Rep(s, n) == Flat([i \in 1..n |-> s])
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* Number of leading white space bytes of b.
LeadWs(b) ==
  LET r == FoldLeft(LAMBDA a, c : IF a[1] /\ IsSpace(c) THEN <<TRUE, a[2] + 1>> ELSE <<FALSE, a[2]>>,
                    <<TRUE, 0>>, b)
  IN  r[2]
TrimLeft(b) == From(b, LeadWs(b) + 1)
AllSpace(b) == \A i \in 1..Len(b) : IsSpace(b[i])

\* Lexicographic order of byte strings (the order of Go strings).
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LexLess(a, b, i + 1)
BytesLess(a, b) == LexLess(a, b, 1)

T_null  == <<110, 117, 108, 108>>
T_true  == <<116, 114, 117, 101>>
T_false == <<102, 97, 108, 115, 101>>
=============================================================================
