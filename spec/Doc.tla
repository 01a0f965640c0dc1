-------------------------------- MODULE Doc ---------------------------------
(***************************************************************************)
(* Token sequences and document trees.                                     *)
(*                                                                         *)
(* A render token is <<class, text>>; class is one of                      *)
(*   "null" "bool" "num" "str" "key" "bytes" "time" "text"  scalars        *)
(*   "p"   punctuation        "pm"  a brace of a Go map                    *)
(*   "err" the encoding fails here                                         *)
(* A tree is <<"s", token>>, <<"a", opener, seq of trees>> or              *)
(* <<"o", opener, seq of <<key token, tree>>>>.                            *)
(***************************************************************************)
EXTENDS Text

\* Class of token i of a lexed text (a string before a colon is a key).
ClassOf(b, toks, i) ==
  LET t == toks[i] IN
  CASE t[1] = K_STR -> IF i < Len(toks) /\ toks[i + 1][1] = COLON THEN "key" ELSE "str"
    [] t[1] = K_NUM -> "num"
    [] t[1] = K_LIT -> IF b[t[2]] = 110 THEN "null" ELSE "bool"
    [] OTHER -> "p"
\* The tokens of a valid document.
TokensOf(b) ==
  LET toks == LexAll(b)[2]
  IN  TLCEval([i \in 1..Len(toks) |-> <<ClassOf(b, toks, i), Sub(b, toks[i][2], toks[i][3])>>])

IsPunc(t, c) == (t[1] = "p" \/ t[1] = "pm") /\ t[2][1] = c
IsOpen(t) == IsPunc(t, LBRACE) \/ IsPunc(t, LBRACK)
IsClose(t) == IsPunc(t, RBRACE) \/ IsPunc(t, RBRACK)

-----------------------------------------------------------------------------
(* Trees.                                                                  *)
\* Fold state: a stack of frames <<opener token, items, pending key>>; the
\* bottom frame collects the root.
NoKey == <<"", <<>>>>
AddItem(stk, n) ==
  LET f == stk[Len(stk)]
      item == IF f[3] = NoKey THEN n ELSE <<f[3], n>>
  IN  [stk EXCEPT ![Len(stk)] = <<f[1], Append(f[2], item), NoKey>>]
TreeStep(stk, t) ==
  IF t[1] = "key" THEN [stk EXCEPT ![Len(stk)] = <<@[1], @[2], t>>]
  ELSE IF IsOpen(t) THEN Append(stk, <<t, <<>>, NoKey>>)
  ELSE IF IsClose(t) THEN
    LET f == stk[Len(stk)] IN
    AddItem(SubSeq(stk, 1, Len(stk) - 1), <<IF IsPunc(f[1], LBRACE) THEN "o" ELSE "a", f[1], f[2]>>)
  ELSE IF t[1] = "p" THEN stk
  ELSE AddItem(stk, <<"s", t>>)
\* The tree of a well-formed token sequence (one document).
TreeOf(toks) == FoldLeft(TreeStep, <<<<<<"", <<>>>>, <<>>, NoKey>>>>, toks)[1][2][1]

P(c) == <<"p", <<c>>>>
Closer(t) == <<t[1], <<t[2][1] + 2>>>>       \* "[" -> "]", "{" -> "}"
Join(parts, sep) ==
  LET p == TLCEval(parts)
  IN  Flat([i \in 1..Len(p) |-> IF i = 1 THEN p[i] ELSE <<sep>> \o p[i]])
RECURSIVE TokensOfTree(_)
TokensOfTree(n) ==
  IF n[1] = "s" THEN <<n[2]>>
  ELSE <<n[2]>> \o
       Join([i \in 1..Len(n[3]) |->
              IF n[1] = "a" THEN TokensOfTree(n[3][i])
              ELSE <<n[3][i][1], P(COLON)>> \o TokensOfTree(n[3][i][2])], P(COMMA))
       \o <<Closer(n[2])>>

\* Same shape, and every map object of n put in the member order of m.
KeyIndex(ms, k) == LET S == {i \in 1..Len(ms) : ms[i][1][2] = k} IN IF Cardinality(S) = 1 THEN CHOOSE i \in S : TRUE ELSE 0
RECURSIVE OrderLike(_, _)
OrderLike(n, m) ==
  IF n[1] = "s" \/ n[1] # m[1] \/ Len(n[3]) # Len(m[3]) THEN n
  ELSE IF n[1] = "a" THEN <<n[1], n[2], TLCEval([i \in 1..Len(n[3]) |-> OrderLike(n[3][i], m[3][i])])>>
  ELSE
    LET ks == TLCEval([i \in 1..Len(n[3]) |-> IF n[2][1] = "pm" THEN KeyIndex(n[3], m[3][i][1][2]) ELSE i])
        perm == \A i \in 1..Len(ks) : ks[i] # 0
        distinct == Cardinality({ks[i] : i \in 1..Len(ks)}) = Len(ks)
    IN  IF perm /\ distinct
        THEN <<n[1], n[2], TLCEval([i \in 1..Len(ks) |-> <<n[3][ks[i]][1], OrderLike(n[3][ks[i]][2], m[3][i][2])>>])>>
        ELSE n

\* A tree with all members sorted by key text: equality up to member order.
RECURSIVE Canon(_)
Canon(n) ==
  IF n[1] = "s" THEN n
  ELSE IF n[1] = "a" THEN <<n[1], n[2], TLCEval([i \in 1..Len(n[3]) |-> Canon(n[3][i])])>>
  ELSE <<n[1], n[2], SortSeq(TLCEval([i \in 1..Len(n[3]) |-> <<n[3][i][1], Canon(n[3][i][2])>>]),
                             LAMBDA x, y : BytesLess(x[1][2], y[1][2]))>>

-----------------------------------------------------------------------------
(* Layout and colour.                                                      *)
Reset == <<ESC, LBRACK, 48, 109>>
PuncColor(col, c) ==
  LET s == CASE c = LBRACK \/ c = RBRACK -> col.brk
             [] c = LBRACE \/ c = RBRACE -> col.brc
             [] c = COMMA -> col.com
             [] OTHER -> col.col
  IN IF s = <<>> THEN col.punc ELSE s
ColorFor(col, t) ==
  CASE t[1] = "p" \/ t[1] = "pm" -> PuncColor(col, t[2][1])
    [] t[1] = "null" -> col.null   [] t[1] = "bool" -> col.bool  [] t[1] = "num" -> col.num
    [] t[1] = "str" -> col.str     [] t[1] = "key" -> col.key    [] t[1] = "bytes" -> col.bytes
    [] t[1] = "time" -> col.time   [] t[1] = "text" -> col.text  [] OTHER -> <<>>
Paint(col, t) == IF col.on THEN ColorFor(col, t) \o t[2] \o Reset ELSE t[2]
NoColors == [on |-> FALSE]

\* ind = [on, pre, in].  State <<depth, just opened, pieces>>.
NewLine(ind, d) == <<LF>> \o ind.pre \o Rep(ind.in, d)
LayStep(ind, col, a, t) ==
  LET d == a[1]  fresh == a[2]  x == Paint(col, t) IN
  IF ~ind.on THEN <<0, FALSE, Append(a[3], x)>>
  ELSE IF IsOpen(t) THEN <<d + 1, TRUE, Append(a[3], IF fresh THEN NewLine(ind, d) \o x ELSE x)>>
  ELSE IF IsClose(t) THEN <<d - 1, FALSE, Append(a[3], IF fresh THEN x ELSE NewLine(ind, d - 1) \o x)>>
  ELSE IF IsPunc(t, COMMA) THEN <<d, FALSE, Append(a[3], x \o NewLine(ind, d))>>
  ELSE IF IsPunc(t, COLON) THEN <<d, FALSE, Append(a[3], x \o <<SP>>)>>
  ELSE <<d, FALSE, Append(a[3], IF fresh THEN NewLine(ind, d) \o x ELSE x)>>
Render(toks, ind, col) ==
  Flat(FoldLeft(LAMBDA a, t : LayStep(ind, col, a, t), <<0, FALSE, <<>>>>, toks)[3])
NoIndent == [on |-> FALSE, pre |-> <<>>, in |-> <<>>]
Indent(pre, in) == [on |-> pre # <<>> \/ in # <<>>, pre |-> pre, in |-> in]

\* b without ANSI colour sequences (ESC "[" parameters "m").
\* State <<mode, output>>: 0 text, 1 after ESC, 2 inside a sequence.
StripStep(a, c) ==
  IF a[1] = 0 THEN (IF c = ESC THEN <<1, a[2]>> ELSE <<0, Append(a[2], c)>>)
  ELSE IF a[1] = 1 THEN (IF c = LBRACK THEN <<2, a[2]>> ELSE <<0, Append(Append(a[2], ESC), c)>>)
  ELSE IF c = 109 THEN <<0, a[2]>> ELSE <<2, a[2]>>
Strip(b) == FoldLeft(StripStep, <<0, <<>>>>, b)[2]
=============================================================================
