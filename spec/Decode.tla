------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* What decoding a document into a Go variable stores.                     *)
(*                                                                         *)
(* A destination type is a record with field t:                            *)
(*   bool | int lo hi uns | f64 | f32 | str | num | bytes | time | dur     *)
(*   any in | iface in    (in: <<type>> of the pointer it holds, or <<>>)  *)
(*   raw | slice e | array e n | map k e | ptr e | st f                    *)
(*   uj | ut              json.Unmarshaler, encoding.TextUnmarshaler       *)
(*   ub text              a byte with one of these methods                 *)
(* with struct fields [g, tag, an, ex, es, ty].                            *)
(*                                                                         *)
(* A variable's contents is a record with field t:                         *)
(*   nil | bool tf | int b | flt neg dg e | str b | num b | bytes b | raw b*)
(*   time .. | arr a | map m | st fs | ptr v | if v | um b n               *)
(* map entries are [k, v], sorted by k.                                    *)
(*                                                                         *)
(* A context c has b (the text), num / dis / ci (options: literal numbers, *)
(* unknown members disallowed, names matched ignoring case), nums (number  *)
(* literals with their floating point values) and times (and durations).   *)
(***************************************************************************)
EXTENDS Encode

-----------------------------------------------------------------------------
(* Document trees with positions.                                          *)
\* <<opener, first, items, pending key>>
SpanAdd(stk, n) ==
  LET f == stk[Len(stk)]
      item == IF f[1] = LBRACE THEN [n |-> f[4], v |-> n] ELSE n
  IN  [stk EXCEPT ![Len(stk)] = <<f[1], f[2], Append(f[3], item), <<>>>>]
SpanStep(b, toks, a, t) ==
  LET i == a[1]  stk == a[2]  k == t[1] IN
  IF k = LBRACE \/ k = LBRACK THEN <<i + 1, Append(stk, <<k, t[2], <<>>, <<>>>>)>>
  ELSE IF k = RBRACE \/ k = RBRACK THEN
    LET f == stk[Len(stk)] IN
    <<i + 1, SpanAdd(SubSeq(stk, 1, Len(stk) - 1),
       IF k = RBRACE THEN [k |-> "o", ms |-> f[3], i |-> f[2], j |-> t[2]]
       ELSE [k |-> "a", es |-> f[3], i |-> f[2], j |-> t[2]])>>
  ELSE IF k = COMMA \/ k = COLON THEN <<i + 1, stk>>
  ELSE LET cl == ClassOf(b, toks, i)  x == Sub(b, t[2], t[3]) IN
    IF cl = "key" THEN <<i + 1, [stk EXCEPT ![Len(stk)] = <<@[1], @[2], @[3], x>>]>>
    ELSE <<i + 1, SpanAdd(stk, [k |-> "s", c |-> cl, x |-> x, i |-> t[2], j |-> t[3]])>>
\* b must be a valid document.
SpanTree(b) ==
  LET toks == TLCEval(LexAll(b)[2])
  IN  FoldLeft(LAMBDA a, t : SpanStep(b, toks, a, t), <<1, <<<<0, 0, <<>>, <<>>>>>>>>, toks)[2][1][3][1]

-----------------------------------------------------------------------------
(* Letter case.  Names are compared by simple Unicode folding; this table  *)
(* covers the letters outside ASCII that are used.                         *)
\* Code points of a (valid UTF-8) byte string.
RuneAt(b, i) ==
  LET n == RuneLen(b, i) IN
  CASE n = 1 -> b[i]
    [] n = 2 -> (b[i] % 32) * 64 + (b[i + 1] % 64)
    [] n = 3 -> (b[i] % 16) * 4096 + (b[i + 1] % 64) * 64 + (b[i + 2] % 64)
    [] n = 4 -> (b[i] % 8) * 262144 + (b[i + 1] % 64) * 4096 + (b[i + 2] % 64) * 64 + (b[i + 3] % 64)
    [] OTHER -> 65533
FoldRune(r) ==
  IF r >= 65 /\ r <= 90 THEN r + 32
  ELSE IF r < 128 THEN r
  ELSE CASE r = 8490 -> 107                                   \* Kelvin sign, k
         [] r = 383 -> 115                                    \* long s, s
         [] r = 8491 -> 229                                   \* Angstrom sign
         [] r >= 192 /\ r <= 222 /\ r # 215 -> r + 32         \* Latin-1
         [] r = 7838 -> 223                                   \* capital sharp s
         [] r = 376 -> 255
         [] r = 962 -> 963                                    \* final sigma
         [] r = 902 -> 940
         [] r >= 904 /\ r <= 906 -> r + 37
         [] r = 908 -> 972
         [] r = 910 \/ r = 911 -> r + 63
         [] r >= 913 /\ r <= 939 /\ r # 930 -> r + 32         \* Greek
         [] r = 181 -> 956                                    \* micro sign, mu
         [] r = 8486 -> 969                                   \* Ohm sign, omega
         [] r >= 1040 /\ r <= 1071 -> r + 32                  \* Cyrillic
         [] r >= 1024 /\ r <= 1039 -> r + 80
         [] r = 452 \/ r = 453 -> 454                         \* DZ with caron
         [] OTHER -> r
FoldName(b) ==
  IF IsAscii(b) THEN TLCEval([i \in 1..Len(b) |-> FoldRune(b[i])])
  ELSE Flat([i \in 1..Len(b) |-> IF IsCont(b[i]) THEN <<>> ELSE <<FoldRune(RuneAt(b, i))>>])

-----------------------------------------------------------------------------
(* Struct types.                                                           *)
EmbTy(ty) == IF ty.t = "ptr" THEN ty.e ELSE ty
RECURSIVE AllTypeFields(_, _, _)
AllTypeFields(T, dp, path) ==
  Flat([i \in 1..Len(T.f) |->
    LET f == T.f[i] IN
    IF Ignored(f) \/ (~f.ex /\ ~(f.an /\ f.es)) THEN <<>>
    ELSE IF Inlined(f) THEN AllTypeFields(EmbTy(f.ty), dp + 1, Append(path, i))
    ELSE <<[n |-> FieldName(f), tg |-> Tagged(f), dp |-> dp, qu |-> HasOpt(f.tag, O_string),
            om |-> HasOpt(f.tag, O_omitempty), ty |-> f.ty, path |-> Append(path, i)]>>])
TypeFields(T) ==
  LET fs == TLCEval(AllTypeFields(T, 0, <<>>))
  IN  Flat([i \in 1..Len(fs) |-> IF Visible(fs, i) THEN <<fs[i]>> ELSE <<>>])
\* The field a member named key goes to; 0 if none.
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
FieldFor(fs, key, ci) ==
  LET ex == {i \in 1..Len(fs) : fs[i].n = key} IN
  IF ex # {} THEN MinOf(ex)
  ELSE IF ~ci THEN 0
  ELSE LET k == FoldName(key)
           fo == {i \in 1..Len(fs) : FoldName(fs[i].n) = k}
       IN  IF fo = {} THEN 0 ELSE MinOf(fo)

Nil == [t |-> "nil"]
RECURSIVE Zero(_)
Zero(T) ==
  CASE T.t = "bool" -> [t |-> "bool", tf |-> FALSE]
    [] T.t \in {"int", "dur", "ub", "uv"} -> [t |-> "int", b |-> <<48>>]
    [] T.t \in {"f64", "f32"} -> [t |-> "flt", neg |-> FALSE, dg |-> <<48>>, e |-> 0]
    [] T.t = "str" -> [t |-> "str", b |-> <<>>]
    [] T.t = "num" -> [t |-> "num", b |-> <<>>]
    [] T.t = "time" -> [t |-> "time", y |-> 1, mo |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0, ns |-> 0, off |-> 0, z |-> TRUE]
    [] T.t \in {"uj", "ut"} -> [t |-> "um", b |-> <<>>, n |-> 0]
    [] T.t = "bad" -> [t |-> "bad", z |-> TRUE]          \* no JSON form
    [] T.t = "array" -> LET z == TLCEval(Zero(T.e)) IN [t |-> "arr", a |-> TLCEval([i \in 1..T.n |-> z])]
    [] T.t = "st" -> [t |-> "st", fs |-> TLCEval([i \in 1..Len(T.f) |-> Zero(T.f[i].ty)])]
    [] OTHER -> Nil

-----------------------------------------------------------------------------
Good(w) == [ok |-> TRUE, w |-> w]
Fail(w) == [ok |-> FALSE, w |-> w]
Lookup(tab, x) ==
  LET S == {i \in 1..Len(tab) : tab[i].x = x} IN IF S = {} THEN 0 ELSE MinOf(S)
FloatOf(c, x, bits) ==      \* [ok, w]
  LET i == Lookup(c.nums, x) IN
  IF i = 0 THEN Fail(Nil)
  ELSE LET r == IF bits = 64 THEN c.nums[i].f64 ELSE c.nums[i].f32 IN
       IF r.ok THEN Good([t |-> "flt", neg |-> r.neg, dg |-> r.dg, e |-> r.e]) ELSE Fail(Nil)
IsNull(D) == D.k = "s" /\ D.c = "null"
Is(D, cl) == D.k = "s" /\ D.c = cl
SmallVal(x) == FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, x)

\* Entries sorted by key; an entry with the same key is replaced.
MapPut(m, k, v) ==
  LET lo == Cardinality({i \in 1..Len(m) : BytesLess(m[i].k, k)})
      same == lo < Len(m) /\ m[lo + 1].k = k
  IN  Sub(m, 1, lo) \o <<[k |-> k, v |-> v]>> \o From(m, IF same THEN lo + 2 ELSE lo + 1)
SeqOk(rs) == \A i \in 1..Len(rs) : rs[i].ok
SeqW(rs) == TLCEval([i \in 1..Len(rs) |-> rs[i].w])

\* Decoding into an empty interface.
RECURSIVE AnyVal(_, _)
AnyVal(D, c) ==
  IF D.k = "s" THEN
    CASE D.c = "null" -> Good(Nil)
      [] D.c = "bool" -> Good([t |-> "if", v |-> [t |-> "bool", tf |-> D.x = T_true]])
      [] D.c = "str" -> Good([t |-> "if", v |-> [t |-> "str", b |-> Unquote(D.x)]])
      [] OTHER -> IF c.num THEN Good([t |-> "if", v |-> [t |-> "num", b |-> D.x]])
                  ELSE LET r == FloatOf(c, D.x, 64) IN
                       IF r.ok THEN Good([t |-> "if", v |-> r.w]) ELSE Fail(Nil)
  ELSE IF D.k = "a" THEN
    LET rs == TLCEval([i \in 1..Len(D.es) |-> AnyVal(D.es[i], c)]) IN
    IF SeqOk(rs) THEN Good([t |-> "if", v |-> [t |-> "arr", a |-> SeqW(rs)]]) ELSE Fail(Nil)
  ELSE
    LET rs == TLCEval([i \in 1..Len(D.ms) |-> AnyVal(D.ms[i].v, c)])
        m == FoldLeft(LAMBDA a, i : MapPut(a, Unquote(D.ms[i].n), rs[i].w), <<>>, TLCEval([i \in 1..Len(rs) |-> i]))
    IN  IF SeqOk(rs) THEN Good([t |-> "if", v |-> [t |-> "map", m |-> m]]) ELSE Fail(Nil)

\* The key text of a map entry, for key type K: [ok, w].
MapKey(K, u) ==
  CASE K.t = "str" -> Good(u)
    [] K.t = "int" -> IF u # <<>> /\ IsNumber(u) /\ IsIntLit(u) /\ ~(K.uns /\ u[1] = MINUS)
                         /\ IntInRange(CanonInt(u), K.lo, K.hi)
                      THEN Good(CanonInt(u)) ELSE Fail(u)
    \* keys that unmarshal themselves: text keeps the text, ktag tags it, klen keeps its length
    [] OTHER -> IF StartsWith(u, <<33, 98, 97, 100>>) THEN Fail(u)                   \* "!bad"
                ELSE Good(CASE K.t = "ktag" -> <<84>> \o u
                            [] K.t = "klen" -> Digits(Len(u))
                            [] OTHER -> u)

F_fail == <<102, 97, 105, 108>>

RECURSIVE Into(_, _, _, _)
\* A value inside a JSON string (option "string").
Quoted(T, D, W, c) ==
  IF T.t = "ptr" THEN
    IF IsNull(D) THEN Good(Nil)
    ELSE LET r == Into([t |-> "quoted", e |-> T.e], D, IF W.t = "ptr" THEN W.v ELSE Zero(T.e), c) IN
         [ok |-> r.ok, w |-> [t |-> "ptr", v |-> r.w]]
  ELSE IF IsNull(D) THEN Good(W)
  ELSE IF ~Is(D, "str") THEN Fail(W)
  ELSE
    LET u == TLCEval(Unquote(D.x))
        l == LexAll(u)
    IN  IF l[1] # "W" \/ Len(l[2]) # 1 \/ l[2][1][1] \notin {K_STR, K_NUM, K_LIT} THEN Fail(W)
        ELSE Into(T, [k |-> "s", c |-> ClassOf(u, l[2], 1), x |-> Sub(u, l[2][1][2], l[2][1][3]),
                      i |-> 1, j |-> Len(u)], W, c)
\* A member for the field at path, of struct type T with contents W.
RECURSIVE AtPath(_, _, _, _, _, _)
AtPath(T, W, path, qu, D, c) ==
  LET i == path[1]  f == T.f[i]  old == W.fs[i] IN
  IF Len(path) = 1 THEN
    LET r == IF qu /\ (IF f.ty.t = "ptr" THEN f.ty.e ELSE f.ty).t \in {"bool", "int", "f64", "f32", "str", "num", "dur"}
             THEN Quoted(f.ty, D, old, c) ELSE Into(f.ty, D, old, c)
    IN  [ok |-> r.ok, w |-> [t |-> "st", fs |-> TLCEval([W.fs EXCEPT ![i] = r.w])]]
  ELSE IF f.ty.t = "ptr" THEN
    IF old.t = "nil" /\ ~f.ex THEN Fail(W)
    ELSE LET r == AtPath(f.ty.e, IF old.t = "ptr" THEN old.v ELSE Zero(f.ty.e), Tail(path), qu, D, c) IN
         [ok |-> r.ok, w |-> [t |-> "st", fs |-> TLCEval([W.fs EXCEPT ![i] = [t |-> "ptr", v |-> r.w]])]]
  ELSE LET r == AtPath(f.ty, old, Tail(path), qu, D, c) IN
       [ok |-> r.ok, w |-> [t |-> "st", fs |-> TLCEval([W.fs EXCEPT ![i] = r.w])]]

\* [ok, w]; w is what is stored (where it is not ok: scalars that were not
\* decoded keep their contents).
Into(T, D, W, c) ==
  CASE T.t = "quoted" -> Quoted(T.e, D, W, c)
    [] T.t = "raw" -> Good([t |-> "raw", b |-> Sub(c.b, D.i, D.j)])
    [] T.t = "any" /\ ~(T.in # <<>> /\ W.t = "if") -> AnyVal(D, c)
    [] T.t \in {"any", "iface"} /\ T.in # <<>> /\ W.t = "if" ->
         IF IsNull(D) THEN Good(Nil)
         ELSE LET r == Into(T.in[1], D, W.v, c) IN [ok |-> r.ok, w |-> [t |-> "if", v |-> r.w]]
    [] IsNull(D) ->
         IF T.t \in {"bytes", "slice", "map", "ptr", "iface"} THEN Good(Nil)
         ELSE IF T.t = "bad" /\ T.nil THEN Good(Zero(T)) ELSE Good(W)
    [] T.t = "bool" -> IF Is(D, "bool") THEN Good([t |-> "bool", tf |-> D.x = T_true]) ELSE Fail(W)
    [] T.t = "dur" /\ Is(D, "str") ->        \* a duration in Go's notation
         LET i == Lookup(c.times, D.x) IN IF i = 0 THEN Fail(W) ELSE IF c.times[i].w.t # "int" THEN Fail(W) ELSE Good(c.times[i].w)
    [] T.t = "int" \/ T.t = "dur" ->
         IF Is(D, "num") /\ IsIntLit(D.x) /\ ~(T.uns /\ D.x[1] = MINUS) /\ IntInRange(CanonInt(D.x), T.lo, T.hi)
         THEN Good([t |-> "int", b |-> CanonInt(D.x)]) ELSE Fail(W)
    [] T.t = "f64" \/ T.t = "f32" ->
         IF Is(D, "num")
         THEN LET r == FloatOf(c, D.x, IF T.t = "f64" THEN 64 ELSE 32) IN IF r.ok THEN r ELSE Fail(W)
         ELSE Fail(W)
    [] T.t = "str" -> IF Is(D, "str") THEN Good([t |-> "str", b |-> Unquote(D.x)]) ELSE Fail(W)
    [] T.t = "num" -> IF Is(D, "num") THEN Good([t |-> "num", b |-> D.x]) ELSE Fail(W)
    [] T.t = "bytes" ->
         IF Is(D, "str") THEN
           LET r == B64Dec(Unquote(D.x)) IN IF r.ok THEN Good([t |-> "bytes", b |-> r.b]) ELSE Fail(W)
         ELSE IF D.k = "a" THEN
           IF \A i \in 1..Len(D.es) : \/ IsNull(D.es[i])
                                      \/ /\ Is(D.es[i], "num") /\ IsIntLit(D.es[i].x) /\ D.es[i].x[1] # MINUS
                                         /\ IntInRange(D.es[i].x, <<48>>, <<50, 53, 53>>)
           THEN Good([t |-> "bytes", b |-> TLCEval([i \in 1..Len(D.es) |-> IF IsNull(D.es[i]) THEN 0 ELSE SmallVal(D.es[i].x)])]) ELSE Fail(W)
         ELSE Fail(W)
    [] T.t = "time" ->
         IF Is(D, "str") THEN
           LET i == Lookup(c.times, D.x) IN IF i = 0 THEN Fail(W) ELSE IF c.times[i].w.t # "time" THEN Fail(W) ELSE Good(c.times[i].w)
         ELSE Fail(W)
    [] T.t = "uj" ->
         LET raw == Sub(c.b, D.i, D.j)
             w == [t |-> "um", b |-> raw, n |-> W.n + 1]
         IN  IF raw = <<QUOTE>> \o F_fail \o <<QUOTE>> THEN Fail(w) ELSE Good(w)
    [] T.t = "ut" ->
         IF ~Is(D, "str") THEN Fail(W)
         ELSE LET u == Unquote(D.x)  w == [t |-> "um", b |-> u, n |-> W.n + 1] IN
              IF u = F_fail THEN Fail(w) ELSE Good(w)
    [] T.t = "ub" ->
         IF T.text /\ ~Is(D, "str") THEN Fail(W)
         ELSE LET u == IF T.text THEN Unquote(D.x) ELSE Sub(c.b, D.i, D.j)
                  n == IF T.text THEN FoldLeft(LAMBDA a, x : a + x, Len(u), u) ELSE u[1] + Len(u)
                  w == [t |-> "int", b |-> Digits(n % 256)]
              IN  IF u = (IF T.text THEN F_fail ELSE <<QUOTE>> \o F_fail \o <<QUOTE>>) THEN Fail(w) ELSE Good(w)
    [] T.t = "uv" ->                          \* an unmarshaler that stores nothing
         IF T.text THEN IF Is(D, "str") /\ Unquote(D.x) # F_fail THEN Good(W) ELSE Fail(W)
         ELSE IF Sub(c.b, D.i, D.j) # <<QUOTE>> \o F_fail \o <<QUOTE>> THEN Good(W) ELSE Fail(W)
    [] T.t = "ptr" ->
         LET r == Into(T.e, D, IF W.t = "ptr" THEN W.v ELSE Zero(T.e), c) IN
         [ok |-> r.ok, w |-> [t |-> "ptr", v |-> r.w]]
    [] T.t = "slice" ->
         IF T.e.t \in {"ub", "uv"} /\ Is(D, "str") THEN
           LET r == B64Dec(Unquote(D.x)) IN
           IF r.ok THEN Good([t |-> "arr", a |-> TLCEval([i \in 1..Len(r.b) |-> [t |-> "int", b |-> Digits(r.b[i])]])]) ELSE Fail(W)
         ELSE IF D.k # "a" THEN Fail(W)
         ELSE LET z == TLCEval(Zero(T.e))
                  rs == TLCEval([i \in 1..Len(D.es) |-> Into(T.e, D.es[i], z, c)]) IN
              [ok |-> SeqOk(rs), w |-> [t |-> "arr", a |-> SeqW(rs)]]
    [] T.t = "array" ->
         IF D.k # "a" THEN Fail(W)
         ELSE LET z == TLCEval(Zero(T.e))
                  rs == TLCEval([i \in 1..T.n |-> IF i <= Len(D.es) THEN Into(T.e, D.es[i], W.a[i], c) ELSE Good(z)]) IN
              [ok |-> SeqOk(rs), w |-> [t |-> "arr", a |-> SeqW(rs)]]
    [] T.t = "map" ->
         IF D.k # "o" THEN Fail(W)
         ELSE LET z == TLCEval(Zero(T.e)) IN
              FoldLeft(LAMBDA a, mb :
                         LET k == MapKey(T.k, Unquote(mb.n))
                             r == Into(T.e, mb.v, z, c)
                         IN  [ok |-> a.ok /\ k.ok /\ r.ok,
                              w |-> IF k.ok THEN [t |-> "map", m |-> MapPut(a.w.m, k.w, r.w)] ELSE a.w],
                       Good(IF W.t = "map" THEN W ELSE [t |-> "map", m |-> <<>>]), D.ms)
    [] T.t = "st" ->
         IF D.k # "o" THEN Fail(W)
         ELSE LET fs == TLCEval(TypeFields(T)) IN
              FoldLeft(LAMBDA a, mb :
                         LET i == FieldFor(fs, Unquote(mb.n), c.ci) IN
                         IF i = 0 THEN [ok |-> a.ok /\ ~c.dis, w |-> a.w]
                         ELSE LET r == AtPath(T, a.w, fs[i].path, fs[i].qu, mb.v, c) IN
                              [ok |-> a.ok /\ r.ok, w |-> r.w],
                       Good(W), D.ms)
    [] OTHER -> Fail(W)

-----------------------------------------------------------------------------
(* A failed decoding: a scalar has its previous contents, or those the     *)
(* document gives it.                                                      *)
Scalar(T) == T.t \in {"bool", "int", "dur", "f64", "f32", "str", "num", "time"}
NoDups(D, fs, ci) ==
  LET n == Len(D.ms)
      g == TLCEval([i \in 1..n |-> FieldFor(fs, Unquote(D.ms[i].n), ci)])
  IN  \A i, j \in 1..n : i < j /\ g[i] # 0 => g[i] # g[j]
RECURSIVE SlotOk(_, _, _, _, _, _)
SlotOk(T, D, c, old, new, got) ==
  IF Scalar(T) THEN got = old \/ got = new
  ELSE IF T.t = "ptr" THEN
    IF old.t = "ptr" /\ new.t = "ptr" /\ got.t = "ptr" THEN SlotOk(T.e, D, c, old.v, new.v, got.v) ELSE TRUE
  ELSE IF T.t = "st" /\ D.k = "o" THEN
    NoDups(D, TLCEval(TypeFields(T)), c.ci) =>
      \A i \in 1..Len(T.f) : Scalar(T.f[i].ty) /\ ~HasOpt(T.f[i].tag, O_string) => got.fs[i] = old.fs[i] \/ got.fs[i] = new.fs[i]
  ELSE IF T.t = "st" THEN got = old
  ELSE TRUE

\* Decoding the whole text c.b into a variable of type T with contents W.
Whole(T, W, c) ==
  IF ~ValidDoc(c.b) THEN Fail(W) ELSE Into(T, TLCEval(SpanTree(c.b)), W, c)
=============================================================================
