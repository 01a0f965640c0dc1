------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* The language of JSON texts (RFC 8259) as two machines:                  *)
(*   - a lexer, a finite automaton over bytes (table LexDelta) that cuts a *)
(*     text into tokens, and                                               *)
(*   - a parser, a push-down automaton over token kinds.                   *)
(* Valid, viable prefixes, the first value of a text, token structure and  *)
(* the denoted value are all defined from these two machines.              *)
(***************************************************************************)
EXTENDS Bytes

-----------------------------------------------------------------------------
(* Lexer.                                                                  *)
\* States: W between tokens; S/B/U1..U4 inside a string; N* inside a number;
\* t1.. f1.. n1.. inside a literal; X dead.
NumStates == {"N-", "N0", "NI", "N.", "NF", "NE", "N+", "NX"}
NumFinal == {"N0", "NI", "NF", "NX"}
LitStates == {"t1", "t2", "t3", "f1", "f2", "f3", "f4", "n1", "n2", "n3"}
StrStates == {"S", "B", "U1", "U2", "U3", "U4"}
LexStates == {"W", "X"} \cup NumStates \cup LitStates \cup StrStates

Structural == {LBRACE, RBRACE, LBRACK, RBRACK, COLON, COMMA}

\* First byte of a token: <<next state, effect>>.  Effects: "no" nothing,
\* "st" a token starts here, "en" the token ends with this byte, "one" a
\* one-byte token, "num" the number ended before this byte.
LexStart(c) ==
  IF IsSpace(c) THEN <<"W", "no">>
  ELSE IF c \in Structural THEN <<"W", "one">>
  ELSE IF c = QUOTE THEN <<"S", "st">>
  ELSE IF c = MINUS THEN <<"N-", "st">>
  ELSE IF c = ZERO THEN <<"N0", "st">>
  ELSE IF IsDigit(c) THEN <<"NI", "st">>
  ELSE IF c = 116 THEN <<"t1", "st">>
  ELSE IF c = 102 THEN <<"f1", "st">>
  ELSE IF c = 110 THEN <<"n1", "st">>
  ELSE <<"X", "no">>

Lit(c, want, next) == IF c = want THEN <<next, IF next = "W" THEN "en" ELSE "no">> ELSE <<"X", "no">>
Cont(q) == <<q, "no">>
Dead == <<"X", "no">>

LexStep(q, c) ==
  CASE q = "W" -> LexStart(c)
    [] q = "S" -> IF c = QUOTE THEN <<"W", "en">> ELSE IF c = BSLASH THEN Cont("B")
                  ELSE IF c < 32 THEN Dead ELSE Cont("S")
    [] q = "B" -> IF c \in {QUOTE, BSLASH, SLASH, 98, 102, 110, 114, 116} THEN Cont("S")
                  ELSE IF c = 117 THEN Cont("U1") ELSE Dead
    [] q = "U1" -> IF IsHex(c) THEN Cont("U2") ELSE Dead
    [] q = "U2" -> IF IsHex(c) THEN Cont("U3") ELSE Dead
    [] q = "U3" -> IF IsHex(c) THEN Cont("U4") ELSE Dead
    [] q = "U4" -> IF IsHex(c) THEN Cont("S") ELSE Dead
    [] q = "N-" -> IF c = ZERO THEN Cont("N0") ELSE IF IsDigit(c) THEN Cont("NI") ELSE Dead
    [] q = "N0" -> IF c = DOT THEN Cont("N.") ELSE IF c = 101 \/ c = 69 THEN Cont("NE")
                   ELSE <<"W", "num">>
    [] q = "NI" -> IF IsDigit(c) THEN Cont("NI") ELSE IF c = DOT THEN Cont("N.")
                   ELSE IF c = 101 \/ c = 69 THEN Cont("NE") ELSE <<"W", "num">>
    [] q = "N." -> IF IsDigit(c) THEN Cont("NF") ELSE Dead
    [] q = "NF" -> IF IsDigit(c) THEN Cont("NF") ELSE IF c = 101 \/ c = 69 THEN Cont("NE")
                   ELSE <<"W", "num">>
    [] q = "NE" -> IF IsDigit(c) THEN Cont("NX") ELSE IF c = PLUS \/ c = MINUS THEN Cont("N+") ELSE Dead
    [] q = "N+" -> IF IsDigit(c) THEN Cont("NX") ELSE Dead
    [] q = "NX" -> IF IsDigit(c) THEN Cont("NX") ELSE <<"W", "num">>
    [] q = "t1" -> Lit(c, 114, "t2") [] q = "t2" -> Lit(c, 117, "t3") [] q = "t3" -> Lit(c, 101, "W")
    [] q = "f1" -> Lit(c, 97, "f2")  [] q = "f2" -> Lit(c, 108, "f3") [] q = "f3" -> Lit(c, 115, "f4")
    [] q = "f4" -> Lit(c, 101, "W")
    [] q = "n1" -> Lit(c, 117, "n2") [] q = "n2" -> Lit(c, 108, "n3") [] q = "n3" -> Lit(c, 108, "W")
    [] q = "X" -> Dead

LexDelta == [q \in LexStates |-> [c \in Byte |-> LexStep(q, c)]]

\* Token kinds, from the first byte.
Kind(c) == IF c \in Structural THEN c
           ELSE IF c = QUOTE THEN 1          \* string
           ELSE IF c = MINUS \/ IsDigit(c) THEN 2   \* number
           ELSE 3                            \* true, false, null
KindTable == [c \in Byte |-> Kind(c)]
K_STR == 1   K_NUM == 2   K_LIT == 3

\* A token is <<kind, first, last>> (1-based, inclusive).
\* Lexer configuration: <<state, token start, next index, tokens>>.
LexInit == <<"W", 0, 1, <<>>>>
LexByte(b, a, c) ==
  LET r == LexDelta[a[1]][c]
      e == r[2]
      i == a[3]
  IN  IF e = "no" THEN <<r[1], a[2], i + 1, a[4]>>
      ELSE IF e = "st" THEN <<r[1], i, i + 1, a[4]>>
      ELSE IF e = "en" THEN <<"W", 0, i + 1, Append(a[4], <<KindTable[b[a[2]]], a[2], i>>)>>
      ELSE IF e = "one" THEN <<"W", 0, i + 1, Append(a[4], <<c, i, i>>)>>
      ELSE \* "num": close the number, then treat c as the first byte of something else
        LET ts == Append(a[4], <<K_NUM, a[2], i - 1>>)
            s == LexDelta["W"][c]
        IN  IF s[2] = "one" THEN <<"W", 0, i + 1, Append(ts, <<c, i, i>>)>>
            ELSE <<s[1], IF s[2] = "st" THEN i ELSE 0, i + 1, ts>>
Lex(b) == FoldLeft(LAMBDA a, c : LexByte(b, a, c), LexInit, b)

\* Result of lexing a complete text: the final number, if any, is closed.
\* <<final state, tokens>>; final state "W" means lexically complete.
LexAll(b) ==
  LET a == Lex(b)
  IN  IF a[1] \in NumFinal THEN <<"W", Append(a[4], <<K_NUM, a[2], Len(b)>>)>>
      ELSE <<a[1], a[4]>>

-----------------------------------------------------------------------------
(* Parser: push-down automaton over token kinds.                           *)
\* Configuration <<state, stack>>; the stack is a sequence of LBRACE/LBRACK.
\* V value expected; A after "["; O after "{"; K key expected; C colon
\* expected; E after a value in a container; D document complete; X dead.
After(stk) == IF stk = <<>> THEN <<"D", stk>> ELSE <<"E", stk>>
Pop(stk) == SubSeq(stk, 1, Len(stk) - 1)
Top(stk) == IF stk = <<>> THEN 0 ELSE stk[Len(stk)]
PDead == <<"X", <<>>>>

PValue(k, stk) ==
  CASE k \in {K_STR, K_NUM, K_LIT} -> After(stk)
    [] k = LBRACE -> <<"O", Append(stk, LBRACE)>>
    [] k = LBRACK -> <<"A", Append(stk, LBRACK)>>
    [] OTHER -> PDead

PStep(p, k) ==
  CASE p[1] = "V" -> PValue(k, p[2])
    [] p[1] = "A" -> IF k = RBRACK THEN After(Pop(p[2])) ELSE PValue(k, p[2])
    [] p[1] = "O" -> IF k = RBRACE THEN After(Pop(p[2])) ELSE IF k = K_STR THEN <<"C", p[2]>> ELSE PDead
    [] p[1] = "K" -> IF k = K_STR THEN <<"C", p[2]>> ELSE PDead
    [] p[1] = "C" -> IF k = COLON THEN <<"V", p[2]>> ELSE PDead
    [] p[1] = "E" -> IF k = COMMA THEN <<IF Top(p[2]) = LBRACE THEN "K" ELSE "V", p[2]>>
                     ELSE IF k = RBRACE /\ Top(p[2]) = LBRACE THEN After(Pop(p[2]))
                     ELSE IF k = RBRACK /\ Top(p[2]) = LBRACK THEN After(Pop(p[2]))
                     ELSE PDead
    [] OTHER -> PDead
PInit == <<"V", <<>>>>
Parse(toks) == FoldLeft(LAMBDA p, t : PStep(p, t[1]), PInit, toks)

\* b is exactly one JSON document, with optional surrounding white space.
ValidDoc(b) == LET l == LexAll(b) IN l[1] = "W" /\ Parse(l[2])[1] = "D"

\* b can be extended to a document (possibly by nothing).
Expects(p, k) == PStep(p, k)[1] # "X"
Viable(b) ==
  LET a == Lex(b)
      p == Parse(a[4])
  IN  /\ a[1] # "X"
      /\ p[1] # "X"
      /\ \/ a[1] = "W"
         \/ a[1] \in StrStates /\ Expects(p, K_STR)
         \/ a[1] \in NumStates /\ Expects(p, K_NUM)
         \/ a[1] \in LitStates /\ Expects(p, K_LIT)

-----------------------------------------------------------------------------
(* The first value of a text (a stream of values without separators).      *)
\* First(b) = [r |-> "ok", n |-> number of bytes up to the value's end]
\*          | [r |-> "eof"] b is a (possibly blank) viable prefix of a value
\*          | [r |-> "err"] no continuation of b starts with a value
\* final says whether b is everything (a number at the end is complete).
\* Scan state: <<lexer state, parser config, index of value end (0 while open)>>
ScanByte(s, c) ==
  IF s[3] # 0 \/ s[1] = "X" THEN s
  ELSE
    LET r == LexDelta[s[1]][c]
        i == s[4]
        e == r[2]
    IN
    IF e = "no" THEN <<r[1], s[2], 0, i + 1, s[5]>>
    ELSE IF e = "st" THEN
      IF Expects(s[2], KindTable[c]) THEN <<r[1], s[2], 0, i + 1, KindTable[c]>>
      ELSE <<"X", s[2], 0, i + 1, 0>>
    ELSE IF e = "one" THEN
      LET p == PStep(s[2], c) IN
      IF p[1] = "X" THEN <<"X", p, 0, i + 1, 0>>
      ELSE <<"W", p, IF p[1] = "D" THEN i ELSE 0, i + 1, 0>>
    ELSE IF e = "en" THEN
      LET p == PStep(s[2], s[5]) IN
      <<"W", p, IF p[1] = "D" THEN i ELSE 0, i + 1, 0>>
    ELSE \* "num"
      LET p == PStep(s[2], K_NUM) IN
      IF p[1] = "D" THEN <<"W", p, i - 1, i + 1, 0>>
      ELSE LET w == LexDelta["W"][c] IN
        IF w[2] = "no" THEN <<w[1], p, 0, i + 1, 0>>
        ELSE IF w[2] = "st" THEN
          IF Expects(p, KindTable[c]) THEN <<w[1], p, 0, i + 1, KindTable[c]>> ELSE <<"X", p, 0, i + 1, 0>>
        ELSE LET p2 == PStep(p, c) IN
          IF p2[1] = "X" THEN <<"X", p2, 0, i + 1, 0>>
          ELSE <<"W", p2, IF p2[1] = "D" THEN i ELSE 0, i + 1, 0>>
Scan(b) == FoldLeft(ScanByte, <<"W", PInit, 0, 1, 0>>, b)
First(b, final) ==
  LET s == Scan(b) IN
  IF s[3] # 0 THEN [r |-> "ok", n |-> s[3]]
  ELSE IF s[1] = "X" THEN [r |-> "err", n |-> 0]
  ELSE IF final /\ s[1] \in NumFinal /\ PStep(s[2], K_NUM)[1] = "D" THEN [r |-> "ok", n |-> Len(b)]
  ELSE [r |-> "eof", n |-> 0]
=============================================================================
