-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts of scalars: UTF-8, JSON string literals and what they denote,     *)
(* base64, decimal numbers, floating point layout, RFC 3339 times.         *)
(***************************************************************************)
EXTENDS JsonText

-----------------------------------------------------------------------------
(* UTF-8, as Go decodes it: a byte that does not start a well-formed       *)
(* sequence is invalid on its own.  Everything is local to a position, as  *)
(* continuation bytes never start a sequence.                              *)
IsCont(c) == c >= 128 /\ c <= 191
At(b, i) == IF i >= 1 /\ i <= Len(b) THEN b[i] ELSE 0
\* Length of the well-formed sequence starting at i; 0 if there is none.
RuneLen(b, i) ==
  LET c == At(b, i)  c1 == At(b, i + 1)  c2 == At(b, i + 2)  c3 == At(b, i + 3) IN
  IF i < 1 \/ i > Len(b) THEN 0
  ELSE IF c < 128 THEN 1
  ELSE IF c < 194 THEN 0
  ELSE IF c < 224 THEN IF IsCont(c1) THEN 2 ELSE 0
  ELSE IF c < 240 THEN
    IF /\ c1 >= (IF c = 224 THEN 160 ELSE 128)
       /\ c1 <= (IF c = 237 THEN 159 ELSE 191)
       /\ IsCont(c2) THEN 3 ELSE 0
  ELSE IF c < 245 THEN
    IF /\ c1 >= (IF c = 240 THEN 144 ELSE 128)
       /\ c1 <= (IF c = 244 THEN 143 ELSE 191)
       /\ IsCont(c2) /\ IsCont(c3) THEN 4 ELSE 0
  ELSE 0
\* Position i is a continuation of a sequence that started before it.
Covered(b, i) ==
  /\ IsCont(b[i])
  /\ \/ RuneLen(b, i - 1) > 1
     \/ RuneLen(b, i - 2) > 2
     \/ RuneLen(b, i - 3) > 3
BadByte(b, i) == b[i] >= 128 /\ RuneLen(b, i) = 0 /\ ~Covered(b, i)
ValidUtf8(b) == \A i \in 1..Len(b) : ~BadByte(b, i)
UFFFD == <<239, 191, 189>>
IsAscii(b) == \A i \in 1..Len(b) : b[i] < 128
\* b with every invalid byte replaced by U+FFFD.
Coerce(b) == IF IsAscii(b) THEN b
             ELSE Flat([i \in 1..Len(b) |-> IF BadByte(b, i) THEN UFFFD ELSE <<b[i]>>])

EncodeRune(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
  ELSE IF (r >= 55296 /\ r <= 57343) \/ r > 1114111 THEN UFFFD
  ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

\* U+2028 or U+2029 starts at i.
IsLineSep(b, i) == b[i] = 226 /\ At(b, i + 1) = 128 /\ (At(b, i + 2) = 168 \/ At(b, i + 2) = 169)

-----------------------------------------------------------------------------
(* JSON string literals.                                                   *)
Esc00(c) == <<BSLASH, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
\* What position i of the Go string b contributes to its literal.
LitAt(b, i, html) ==
  LET c == b[i] IN
  IF c >= 128 THEN
    IF BadByte(b, i) THEN <<BSLASH, 117, 102, 102, 102, 100>>
    ELSE IF IsLineSep(b, i) THEN <<BSLASH, 117, 50, 48, 50, HexDigit(b[i + 2] - 160)>>
    ELSE IF (i > 1 /\ IsLineSep(b, i - 1)) \/ (i > 2 /\ IsLineSep(b, i - 2)) THEN <<>>
    ELSE <<c>>
  ELSE IF c = QUOTE \/ c = BSLASH THEN <<BSLASH, c>>
  ELSE IF c = 10 THEN <<BSLASH, 110>>
  ELSE IF c = 13 THEN <<BSLASH, 114>>
  ELSE IF c = 9 THEN <<BSLASH, 116>>
  ELSE IF c < 32 \/ (html /\ (c = 60 \/ c = 62 \/ c = 38)) THEN Esc00(c)
  ELSE <<c>>
Plain(c) == c >= 32 /\ c < 128 /\ c # QUOTE /\ c # BSLASH /\ c # 60 /\ c # 62 /\ c # 38
AllPlain(b) == \A i \in 1..Len(b) : Plain(b[i])
Quote(b, html) ==
  IF AllPlain(b) THEN <<QUOTE>> \o b \o <<QUOTE>>
  ELSE <<QUOTE>> \o Flat([i \in 1..Len(b) |-> LitAt(b, i, html)]) \o <<QUOTE>>

\* A literal taken from raw JSON: only HTML escaping may change it.
RawLit(t, html) ==
  IF ~html \/ \A i \in 1..Len(t) : t[i] # 60 /\ t[i] # 62 /\ t[i] # 38 /\ t[i] # 226 THEN t
  ELSE Flat([i \in 1..Len(t) |->
         IF t[i] = 60 \/ t[i] = 62 \/ t[i] = 38 THEN Esc00(t[i])
         ELSE IF IsLineSep(t, i) THEN <<BSLASH, 117, 50, 48, 50, HexDigit(t[i + 2] - 160)>>
         ELSE IF (i > 1 /\ IsLineSep(t, i - 1)) \/ (i > 2 /\ IsLineSep(t, i - 2)) THEN <<>>
         ELSE <<t[i]>>])

\* The string a (lexically correct) literal t denotes.
\* Unit i of the literal's inside: [len consumed, code unit] for escapes.
Hex4(t, i) == HexVal(t[i]) * 4096 + HexVal(t[i + 1]) * 256 + HexVal(t[i + 2]) * 16 + HexVal(t[i + 3])
IsHigh(u) == u >= 55296 /\ u <= 56319
IsLow(u) == u >= 56320 /\ u <= 57343
EscChar(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
\* First find, for every position, whether an escape starts there: fold with
\* a countdown of bytes to skip.  State <<skip, starts>>.
EscStarts(t) ==
  LET n == Len(t)
      r == FoldLeft(LAMBDA a, c :
             IF a[1] > 0 THEN <<a[1] - 1, a[2] + 1, a[3]>>
             ELSE IF c = BSLASH THEN
               <<IF At(t, a[2] + 1) = 117 THEN 5 ELSE 1, a[2] + 1, a[3] \cup {a[2]}>>
             ELSE <<0, a[2] + 1, a[3]>>, <<0, 1, {}>>, t)
  IN  r[3]
HasEsc(t) == \E i \in 1..Len(t) : t[i] = BSLASH
Unquote(t) ==
  LET in == Sub(t, 2, Len(t) - 1)
      n  == Len(in)
  IN
  IF ~HasEsc(in) THEN Coerce(in)
  ELSE
    LET st == EscStarts(in)
        IsU(i) == i \in st /\ in[i + 1] = 117
        U(i) == Hex4(in, i + 2)
        \* i starts the second half of a surrogate pair
        Second(i) == IsU(i) /\ IsLow(U(i)) /\ IsU(i - 6) /\ IsHigh(U(i - 6))
        Inside(i) == \/ i - 1 \in st
                     \/ \E d \in 2..5 : IsU(i - d)
        Piece(i) ==
          IF i \in st THEN
            IF in[i + 1] # 117 THEN <<EscChar(in[i + 1])>>
            ELSE IF IsHigh(U(i)) /\ IsU(i + 6) /\ IsLow(U(i + 6))
                 THEN EncodeRune(65536 + (U(i) - 55296) * 1024 + (U(i + 6) - 56320))
            ELSE IF Second(i) THEN <<>>
            ELSE EncodeRune(U(i))
          ELSE IF Inside(i) THEN <<>>
          ELSE IF in[i] < 128 THEN <<in[i]>>
          ELSE IF BadByte(in, i) THEN UFFFD ELSE <<in[i]>>
    IN Flat([i \in 1..n |-> Piece(i)])

-----------------------------------------------------------------------------
(* Base64 (standard alphabet, padded).                                     *)
B64Chars == [n \in 0..63 |->
  IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47]
B64Val(c) ==
  IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71
  ELSE IF c >= 48 /\ c <= 57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
B64Group(b, i) ==
  LET x == b[i]  y == At(b, i + 1)  z == At(b, i + 2)  n == Len(b) IN
  <<B64Chars[x \div 4], B64Chars[(x % 4) * 16 + (y \div 16)],
    IF i + 1 > n THEN 61 ELSE B64Chars[(y % 16) * 4 + (z \div 64)],
    IF i + 2 > n THEN 61 ELSE B64Chars[z % 64]>>
B64(b) == Flat([k \in 1..((Len(b) + 2) \div 3) |-> B64Group(b, 3 * k - 2)])
\* Decoding: [ok, b].  CR and LF are ignored, as Go does.
B64Dec(t0) ==
  LET t == SelectSeq(t0, LAMBDA c : c # 10 /\ c # 13)
      n == Len(t)
      pad == IF n >= 2 /\ t[n] = 61 THEN (IF t[n - 1] = 61 THEN 2 ELSE 1) ELSE 0
      V(i) == B64Val(t[i])
      ok == n % 4 = 0 /\ \A i \in 1..(n - pad) : V(i) >= 0
      G(k) == LET i == 4 * k - 3
                  last == i + 3 = n
                  c == IF last /\ pad = 2 THEN 0 ELSE V(i + 2)
                  d == IF last /\ pad >= 1 THEN 0 ELSE V(i + 3)
                  o == <<V(i) * 4 + (V(i + 1) \div 16), (V(i + 1) % 16) * 16 + (c \div 4), (c % 4) * 64 + d>>
              IN IF last THEN Sub(o, 1, 3 - pad) ELSE o
  IN  [ok |-> ok, b |-> IF ok THEN Flat([k \in 1..(n \div 4) |-> G(k)]) ELSE <<>>]

-----------------------------------------------------------------------------
(* Numbers.                                                                *)
Digits(n) == LET RECURSIVE D(_) D(m) == IF m < 10 THEN <<48 + m>> ELSE D(m \div 10) \o <<48 + (m % 10)>> IN D(n)
Pad2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Pad4(n) == Pad2(n \div 100) \o Pad2(n % 100)
Zeros(n) == [i \in 1..n |-> 48]
IsNumber(t) == LET l == LexAll(t) IN l[1] = "W" /\ l[2] = <<<<K_NUM, 1, Len(t)>>>>
\* An integer literal (no fraction, no exponent).
IsIntLit(t) == \A i \in 1..Len(t) : IsDigit(t[i]) \/ (i = 1 /\ t[i] = MINUS)
\* Canonical text of an integer literal ("-0" is 0).
CanonInt(t) == IF t = <<MINUS, 48>> THEN <<48>> ELSE t
Mag(t) == IF t # <<>> /\ t[1] = MINUS THEN Tail(t) ELSE t
MagLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~BytesLess(b, a))
\* t within [-lo, hi], given as magnitudes (canonical digit strings).
IntInRange(t, lo, hi) ==
  IF t[1] = MINUS THEN MagLeq(Mag(t), lo) ELSE MagLeq(t, hi)

\* Shortest digits d (no leading or trailing zeros, <<48>> for zero) and
\* decimal exponent e (value = d[1].d[2]... * 10^e): the text ES6 gives.
FloatText(neg, d, e) ==
  LET n == Len(d)
      body ==
        IF d = <<48>> THEN d
        ELSE IF e < -6 \/ e >= 21 THEN
          <<d[1]>> \o (IF n > 1 THEN <<DOT>> \o Tail(d) ELSE <<>>) \o <<101>>
             \o (IF e < 0 THEN <<MINUS>> ELSE <<PLUS>>) \o Digits(IF e < 0 THEN -e ELSE e)
        ELSE IF e < 0 THEN <<48, DOT>> \o Zeros(-e - 1) \o d
        ELSE IF e >= n - 1 THEN d \o Zeros(e - n + 1)
        ELSE Sub(d, 1, e + 1) \o <<DOT>> \o From(d, e + 2)
  IN  (IF neg THEN <<MINUS>> ELSE <<>>) \o body

\* RFC 3339 with as many fractional digits as needed.  t: y mo d h mi s ns off
\* (off in whole minutes east of UTC, z: the zone is UTC to the second).
RECURSIVE DropZeros(_)
DropZeros(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN DropZeros(Sub(d, 1, Len(d) - 1)) ELSE d
TimeText(t) ==
  LET frac == Zeros(9 - Len(Digits(t.ns))) \o Digits(t.ns)
      o == IF t.off < 0 THEN -t.off ELSE t.off
  IN Pad4(t.y) \o <<MINUS>> \o Pad2(t.mo) \o <<MINUS>> \o Pad2(t.d) \o <<84>>
     \o Pad2(t.h) \o <<COLON>> \o Pad2(t.mi) \o <<COLON>> \o Pad2(t.s)
     \o (IF t.ns = 0 THEN <<>> ELSE <<DOT>> \o DropZeros(frac))
     \o (IF t.z THEN <<90>>
         ELSE <<IF t.off < 0 THEN MINUS ELSE PLUS>> \o Pad2(o \div 60) \o <<COLON>> \o Pad2(o % 60))
=============================================================================
