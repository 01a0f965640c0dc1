------------------------------- MODULE Encode -------------------------------
(***************************************************************************)
(* What the encoder writes for a Go value.                                 *)
(*                                                                         *)
(* A Go value is a record with field t:                                    *)
(*   nil | bool v | int b | flt neg d e | badflt | str b | num b | bytes b *)
(*   time y mo d h mi s ns off z | badtime | arr a | map m | st f | ptr v | if v       *)
(*   raw b            json.RawMessage                                      *)
(*   mj b z           json.Marshaler returning b (mjnil: nothing;          *)
(*   mjerr z          failing)          mjpan z (panicking)                *)
(*   text b z         encoding.TextMarshaler (texterr z: failing)          *)
(*   pm m v           marshaler (m) with pointer receiver on v: used only  *)
(*                    when the value is addressable                        *)
(*   bad              a type that cannot be encoded                        *)
(*   nilst v          a nil pointer to a struct (embedded), v its zero     *)
(* map entries are [k |-> key text, v |-> value, e |-> key fails].         *)
(* struct fields are [g |-> Go name, tag |-> json tag, an |-> anonymous,   *)
(* ex |-> exported, es |-> (pointer to) struct type, v |-> value].         *)
(***************************************************************************)
EXTENDS Doc

-----------------------------------------------------------------------------
(* Struct fields: tags, embedding and visibility.                          *)
Commas(tag) == {i \in 1..Len(tag) : tag[i] = COMMA}
TagName(tag) == IF Commas(tag) = {} THEN tag ELSE Sub(tag, 1, (CHOOSE i \in Commas(tag) : \A j \in Commas(tag) : i <= j) - 1)
HasOpt(tag, opt) ==
  \E i \in Commas(tag) :
    /\ i + Len(opt) <= Len(tag)
    /\ Sub(tag, i + 1, i + Len(opt)) = opt
    /\ (i + Len(opt) = Len(tag) \/ tag[i + Len(opt) + 1] = COMMA)
O_omitempty == <<111, 109, 105, 116, 101, 109, 112, 116, 121>>
O_string == <<115, 116, 114, 105, 110, 103>>
TagPunct == {33, 35, 36, 37, 38, 40, 41, 42, 43, 45, 46, 47, 58, 59, 60, 61, 62, 63, 64, 91, 93, 94, 95, 123, 124, 125, 126, 32}
TagChar(c) == c >= 128 \/ IsDigit(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c \in TagPunct
ValidName(n) == n # <<>> /\ \A i \in 1..Len(n) : TagChar(n[i])
Ignored(f) == f.tag = <<MINUS>>
FieldName(f) == IF ValidName(TagName(f.tag)) THEN TagName(f.tag) ELSE f.g
Tagged(f) == TagName(f.tag) # <<>>
Inlined(f) == f.an /\ f.es /\ ~Tagged(f)

Pointee(v) == v.v      \* of ptr and nilst
\* All fields, embedded ones in place: [n, tg, dp, om, qu, v, ad, no].
\* ad: the value is addressable; no: it lies behind a nil pointer.
RECURSIVE AllFields(_, _, _, _)
AllFields(s, dp, ad, no) ==
  Flat([i \in 1..Len(s.f) |->
    LET f == s.f[i] IN
    IF Ignored(f) \/ (~f.ex /\ ~(f.an /\ f.es)) THEN <<>>
    ELSE IF Inlined(f) THEN
      IF f.v.t = "st" THEN AllFields(f.v, dp + 1, ad, no)
      ELSE AllFields(Pointee(f.v), dp + 1, TRUE, no \/ f.v.t = "nilst")
    ELSE <<[n |-> FieldName(f), tg |-> Tagged(f), dp |-> dp, om |-> HasOpt(f.tag, O_omitempty),
            qu |-> HasOpt(f.tag, O_string), v |-> f.v, ad |-> ad, no |-> no]>>])
Dominates(a, b) == a.dp < b.dp \/ (a.dp = b.dp /\ a.tg /\ ~b.tg)
Visible(fs, i) ==
  \A j \in 1..Len(fs) : j # i /\ fs[j].n = fs[i].n => Dominates(fs[i], fs[j])
Fields(s, ad) ==
  LET fs == TLCEval(AllFields(s, 0, ad, FALSE))
  IN  Flat([i \in 1..Len(fs) |-> IF Visible(fs, i) THEN <<fs[i]>> ELSE <<>>])

RECURSIVE Empty(_)
Empty(v) ==
  CASE v.t = "nil" -> TRUE
    [] v.t = "bool" -> ~v.v
    [] v.t = "int" -> v.b = <<48>>
    [] v.t = "flt" -> v.d = <<48>>
    [] v.t \in {"str", "num", "bytes", "raw"} -> v.b = <<>>
    [] v.t = "arr" -> v.a = <<>>
    [] v.t = "map" -> v.m = <<>>
    [] v.t \in {"text", "texterr", "mj", "mjerr", "mjpan", "mjnil", "bad"} -> v.z
    [] v.t = "pm" -> Empty(v.v)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Tokens of a value.  c = [html, sort, trust].                            *)
Err == <<<<"err", <<>>>>>>
RawTokens(b, html) ==
  IF ~ValidDoc(b) THEN Err
  ELSE LET ts == TokensOf(b) IN
       IF ~html THEN ts
       ELSE TLCEval([i \in 1..Len(ts) |-> IF ts[i][1] \in {"str", "key"} THEN <<ts[i][1], RawLit(ts[i][2], TRUE)>> ELSE ts[i]])
NullTok == <<<<"null", T_null>>>>
NumText(b) == IF b = <<>> THEN <<48>> ELSE b
Texts(ts) == Flat([i \in 1..Len(ts) |-> ts[i][2]])
Failed(ts) == \E i \in 1..Len(ts) : ts[i][1] = "err"

RECURSIVE Emit(_, _, _)
Quotable(v) == v.t \in {"bool", "int", "flt", "badflt", "str", "num"}
Stringify(v, c) ==
  LET ts == TLCEval(Emit(v, c, FALSE)) IN
  IF Failed(ts) THEN Err ELSE <<<<"str", Quote(Texts(ts), c.html)>>>>
EmitField(f, c) ==
  IF f.qu /\ Quotable(f.v) THEN Stringify(f.v, c)
  ELSE IF f.qu /\ f.v.t = "ptr" /\ Quotable(f.v.v) THEN Stringify(f.v.v, c)
  ELSE Emit(f.v, c, f.ad)
Emit(v, c, addr) ==
  CASE v.t = "nil" -> NullTok
    [] v.t = "bool" -> <<<<"bool", IF v.v THEN T_true ELSE T_false>>>>
    [] v.t = "int" -> <<<<"num", v.b>>>>
    [] v.t = "flt" -> <<<<"num", FloatText(v.neg, v.d, v.e)>>>>
    [] v.t = "str" -> <<<<"str", Quote(v.b, c.html)>>>>
    [] v.t = "num" -> IF IsNumber(NumText(v.b)) THEN <<<<"num", NumText(v.b)>>>> ELSE Err
    [] v.t = "bytes" -> <<<<"bytes", <<QUOTE>> \o B64(v.b) \o <<QUOTE>>>>>>
    [] v.t = "time" -> <<<<"time", <<QUOTE>> \o TimeText(v) \o <<QUOTE>>>>>>
    [] v.t = "text" -> <<<<"text", Quote(v.b, c.html)>>>>
    [] v.t = "raw" \/ v.t = "mj" -> RawTokens(v.b, c.html)
    [] v.t \in {"badflt", "badtime", "texterr", "mjerr", "mjpan", "mjnil", "bad"} -> Err
    [] v.t = "pm" -> IF addr THEN Emit(v.m, c, addr) ELSE Emit(v.v, c, FALSE)
    [] v.t = "ptr" -> Emit(v.v, c, TRUE)
    [] v.t = "if" -> Emit(v.v, c, FALSE)
    [] v.t = "arr" ->
         <<P(LBRACK)>> \o Join([i \in 1..Len(v.a) |-> Emit(v.a[i], c, v.sl \/ addr)], P(COMMA)) \o <<P(RBRACK)>>
    [] v.t = "map" ->
         LET es == TLCEval(IF c.sort THEN SortSeq(v.m, LAMBDA x, y : BytesLess(x.k, y.k)) ELSE v.m) IN
         <<<<"pm", <<LBRACE>>>>>>
         \o Join([i \in 1..Len(es) |->
                   IF es[i].e THEN Err
                   ELSE <<<<"key", Quote(es[i].k, c.html)>>, P(COLON)>> \o Emit(es[i].v, c, FALSE)], P(COMMA))
         \o <<<<"pm", <<RBRACE>>>>>>
    [] v.t = "st" ->
         LET all == TLCEval(Fields(v, addr))
             fs == TLCEval(SelectSeq(all, LAMBDA f : ~f.no /\ ~(f.om /\ Empty(f.v)))) IN
         <<P(LBRACE)>>
         \o Join([i \in 1..Len(fs) |->
                   <<<<"key", Quote(fs[i].n, c.html)>>, P(COLON)>> \o EmitField(fs[i], c)], P(COMMA))
         \o <<P(RBRACE)>>
    [] OTHER -> Err

-----------------------------------------------------------------------------
(* Complete encodings.                                                     *)
\* cfg = [html, sort, trust, pre, in]; col = colours.
IndOf(cfg) == Indent(cfg.pre, cfg.in)
\* The encoding [ok, b]; obs is what was observed (it only decides the
\* member order of unsorted maps).
Expect(v, cfg, col, obs) ==
  LET ts == TLCEval(Emit(v, cfg, FALSE)) IN
  IF Failed(ts) THEN [ok |-> FALSE, b |-> <<>>]
  ELSE
    LET plain == IF col.on THEN Strip(obs) ELSE obs
        us == IF cfg.sort \/ ~ValidDoc(plain) THEN ts
              ELSE TokensOfTree(OrderLike(TreeOf(ts), TreeOf(TokensOf(plain))))
    IN  [ok |-> TRUE, b |-> Render(us, IndOf(cfg), col)]
=============================================================================
