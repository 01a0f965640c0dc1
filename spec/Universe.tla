------------------------------ MODULE Universe ------------------------------
(***************************************************************************)
(* A finite universe of destination types, values, documents and settings, *)
(* for exhaustive enumeration.  Types and contents are those of Decode;    *)
(* Gv gives the value (as Encode has it) of a variable with contents W.    *)
(* (Byte strings are spelled out below; see Bytes.)                        *)
(***************************************************************************)
EXTENDS DecOps

T_(t) == [t |-> t]
Bool == T_("bool")   F64 == T_("f64")   Str == T_("str")   Num == T_("num")   Bytes_ == T_("bytes")
AnyT == [t |-> "any", in |-> <<>>]
Int8 == [t |-> "int", lo |-> <<49, 50, 56>>, hi |-> <<49, 50, 55>>, uns |-> FALSE]
U16 == [t |-> "int", lo |-> <<48>>, hi |-> <<54, 53, 53, 51, 53>>, uns |-> TRUE]
Ptr(e) == [t |-> "ptr", e |-> e]
Slice(e) == [t |-> "slice", e |-> e]
Arr(n, e) == [t |-> "array", n |-> n, e |-> e]
Map_(k, e) == [t |-> "map", k |-> k, e |-> e]
IsSt(T) == T.t = "st" \/ (T.t = "ptr" /\ T.e.t = "st")
Fld(g, tag, T) == [g |-> g, tag |-> tag, an |-> FALSE, ex |-> TRUE, es |-> IsSt(T), ty |-> T]
Emb(g, tag, T) == [Fld(g, tag, T) EXCEPT !.an = TRUE]
St(fs) == [t |-> "st", f |-> fs]

N_A == <<65>>  N_B == <<66>>  N_C == <<67>>  N_E == <<69>>  N_F == <<70>>
G_none == <<>>
G_b == <<98>>
G_omit == <<44, 111, 109, 105, 116, 101, 109, 112, 116, 121>>
G_str == <<44, 115, 116, 114, 105, 110, 103>>
G_dash == <<45>>
G_bomit == <<98, 44, 111, 109, 105, 116, 101, 109, 112, 116, 121>>
G_bstr == <<98, 44, 115, 116, 114, 105, 110, 103>>
G_dashc == <<45, 44>>
G_A == <<65>>
G_a == <<97>>
G_ostr == <<97, 44, 111, 109, 105, 116, 101, 109, 112, 116, 121, 44, 115, 116, 114, 105, 110, 103>>
G_e == <<101>>
G_esc == <<60>>
G_clt == <<99, 60>>

Docs == {
  <<110, 117, 108, 108>>,
  <<116, 114, 117, 101>>,
  <<48>>,
  <<45, 49, 50, 56>>,
  <<51, 48, 48>>,
  <<49, 46, 53>>,
  <<34, 34>>,
  <<34, 97, 34>>,
  <<34, 65, 97, 61, 61, 34>>,
  <<32, 91, 32, 93, 32>>,
  <<91, 55, 93>>,
  <<91, 110, 117, 108, 108, 44, 55, 93>>,
  <<91, 55, 44, 48, 44, 55, 93>>,
  <<91, 34, 97, 34, 44, 116, 114, 117, 101, 93>>,
  <<123, 125>>,
  <<123, 34, 97, 34, 58, 55, 125>>,
  <<123, 34, 65, 34, 58, 55, 125>>,
  <<123, 34, 97, 34, 58, 110, 117, 108, 108, 44, 34, 65, 34, 58, 55, 125>>,
  <<123, 34, 98, 34, 58, 34, 97, 34, 125>>,
  <<123, 34, 97, 34, 58, 55, 44, 34, 97, 34, 58, 48, 125>>,
  <<123, 34, 97, 34, 58, 123, 34, 98, 34, 58, 48, 125, 125>>,
  <<123, 34, 45, 49, 34, 58, 55, 44, 34, 49, 48, 34, 58, 48, 125>>,
  <<123, 34, 67, 34, 58, 49, 46, 53, 44, 34, 122, 122, 34, 58, 91, 123, 34, 97, 34, 58, 49, 125, 93, 125>>,
  <<123, 34, 97, 34, 58, 34, 55, 34, 125>>,
  <<123, 34, 98, 34, 58, 34, 92, 34, 97, 92, 34, 34, 125>>,
  <<123, 34, 65, 34, 58, 116, 114, 117, 101, 44, 34, 66, 34, 58, 34, 97, 34, 125>>,
  <<123, 34, 101, 34, 58, 123, 34, 97, 34, 58, 55, 44, 34, 65, 34, 58, 48, 125, 125>>,
  <<91, 91, 55, 93, 44, 91, 93, 93>>,
  <<91, 123, 34, 97, 34, 58, 55, 125, 44, 123, 34, 98, 34, 58, 48, 125, 93>>,
  <<123, 34, 97, 34, 58, 91, 55, 93, 125>>,
  <<123, 34, 65, 34, 58, 34, 55, 34, 44, 34, 98, 34, 58, 51, 48, 48, 125>>,
  <<123, 34, 99, 34, 58, 34, 97, 34, 44, 34, 97, 34, 58, 48, 125>>,
  <<91, 48, 44, 123, 34, 92, 117, 48, 48, 54, 49, 34, 58, 55, 125, 93>>,
  <<123, 34, 66, 34, 58, 55, 44, 34, 65, 34, 58, 34, 116, 114, 117, 101, 34, 125>>,
  <<123, 34, 97, 34, 58, 34, 49, 46, 53, 34, 44, 34, 98, 34, 58, 110, 117, 108, 108, 125>>,
  <<91, 116, 114, 117, 101, 44, 110, 117, 108, 108, 93>>,
  <<123, 34, 97, 34, 58, 34, 97, 34, 44, 34, 60, 34, 58, 34, 92, 117, 50, 48, 50, 56, 34, 125>>,
  <<123, 34, 101, 34, 58, 110, 117, 108, 108, 125>>,
  <<123, 34, 45, 34, 58, 55, 44, 34, 65, 34, 58, 48, 125>>}
\* Document trees, systematically.
Atoms == {<<110, 117, 108, 108>>, <<116, 114, 117, 101>>, <<48>>, <<49, 46, 53>>, <<45, 55, 101, 49>>, <<34, 34>>, <<34, 97, 34>>, <<34, 92, 117, 48, 48, 51, 99, 92, 110, 92, 117, 100, 56, 51, 100, 92, 117, 100, 101, 48, 48, 92, 117, 50, 48, 50, 56, 34>>, <<91, 93>>, <<123, 32, 125>>}
Keys_ == {<<34, 97, 34>>, <<34, 92, 117, 48, 48, 54, 49, 34>>, <<34, 34>>}
Arr1(S) == {<<LBRACK>> \o x \o <<RBRACK>> : x \in S}
Arr2(S) == {<<LBRACK>> \o x \o <<COMMA, SP>> \o y \o <<RBRACK>> : x, y \in S}
Obj1(K, S) == {<<LBRACE>> \o k \o <<COLON>> \o x \o <<RBRACE>> : k \in K, x \in S}
Obj2(K, S) == {<<LBRACE, SP>> \o k \o <<SP, COLON>> \o x \o <<COMMA>> \o l \o <<COLON, SP>> \o y \o <<SP, RBRACE>> : k, l \in K, x, y \in S}
Trees1 == Atoms \cup Arr1(Atoms) \cup Arr2(Atoms) \cup Obj1(Keys_, Atoms) \cup Obj2(Keys_, Atoms)
Few == {x \in Trees1 : Len(x) <= 9}
Trees2 == Trees1 \cup Arr1(Trees1) \cup Obj1(Keys_, Trees1) \cup Arr2(Few)
NumTable == <<[x |-> <<45, 55, 101, 49>>, f64 |-> [ok |-> TRUE, neg |-> TRUE, dg |-> <<55>>, e |-> 1], f32 |-> [ok |-> TRUE, neg |-> TRUE, dg |-> <<55>>, e |-> 1]],
  [x |-> <<48>>, f64 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<48>>, e |-> 0], f32 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<48>>, e |-> 0]],
  [x |-> <<55>>, f64 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<55>>, e |-> 0], f32 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<55>>, e |-> 0]],
  [x |-> <<45, 49, 50, 56>>, f64 |-> [ok |-> TRUE, neg |-> TRUE, dg |-> <<49, 50, 56>>, e |-> 2], f32 |-> [ok |-> TRUE, neg |-> TRUE, dg |-> <<49, 50, 56>>, e |-> 2]],
  [x |-> <<51, 48, 48>>, f64 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<51>>, e |-> 2], f32 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<51>>, e |-> 2]],
  [x |-> <<49, 46, 53>>, f64 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<49, 53>>, e |-> 0], f32 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<49, 53>>, e |-> 0]],
  [x |-> <<49>>, f64 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<49>>, e |-> 0], f32 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<49>>, e |-> 0]],
  [x |-> <<49, 48>>, f64 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<49>>, e |-> 1], f32 |-> [ok |-> TRUE, neg |-> FALSE, dg |-> <<49>>, e |-> 1]],
  [x |-> <<45, 49>>, f64 |-> [ok |-> TRUE, neg |-> TRUE, dg |-> <<49>>, e |-> 0], f32 |-> [ok |-> TRUE, neg |-> TRUE, dg |-> <<49>>, e |-> 0]]>>

-----------------------------------------------------------------------------
Scalars == {Bool, Int8, U16, F64, Str, Num, Bytes_, AnyT}
One == UNION {{Ptr(e), Slice(e), Arr(2, e), Map_(Str, e)} : e \in Scalars}
       \cup {Map_(Int8, Int8), Map_(U16, Str), Map_(T_("text"), Int8), Arr(1, Ptr(Int8)), Arr(0, Str)}
StIn == St(<<Fld(N_A, G_none, Int8), Fld(N_B, G_b, Str)>>)
Two == {Ptr(Ptr(Int8)), Slice(Ptr(Int8)), Slice(Slice(Int8)), Map_(Str, Slice(Int8)), Slice(Map_(Str, Int8)), Arr(2, Ptr(Int8)),
        Ptr(Slice(Int8)), Ptr(Map_(Str, Str)), Map_(Str, Ptr(Int8)), Arr(2, Arr(1, Int8)), Arr(1, Slice(Str)), Slice(Bytes_), Map_(Str, Map_(Str, Bool)),
        Ptr(StIn), Slice(StIn), Arr(1, StIn), Map_(Str, StIn), Slice(Ptr(StIn)), Map_(Str, Ptr(StIn)), Ptr(AnyT), Ptr(Arr(2, Bool))}
Tags == {G_none, G_b, G_omit, G_str, G_dash, G_bomit, G_bstr, G_dashc, G_ostr, G_esc}
StOne == {St(<<Fld(N_A, tag, T)>>) : tag \in Tags, T \in Scalars \cup {Ptr(Int8), Ptr(Str), Ptr(Bool), Slice(Int8), Map_(Str, Int8), Arr(1, Int8), Arr(0, Int8), StIn, Ptr(StIn)}}
StTwo == {St(<<Fld(N_A, t1, T1), Fld(N_B, t2, T2)>>) : t1, t2 \in {G_none, G_b, G_A, G_a, G_omit}, T1 \in {Int8, Str}, T2 \in {Int8, Ptr(Str)}}
\* Embedded types.
InA == St(<<Fld(N_A, G_none, Int8)>>)
InAT == St(<<Fld(N_B, G_A, Int8)>>)
InAB == St(<<Fld(N_A, G_omit, Str), Fld(N_B, G_b, Int8), Fld(N_C, G_clt, Ptr(Int8))>>)
InDeep == St(<<Emb(N_E, G_none, InAT), Fld(N_C, G_a, Bool)>>)
InPtr == St(<<Emb(N_F, G_none, Ptr(InA)), Fld(N_B, G_omit, Int8)>>)
Ins == {InA, InAT, InAB, InDeep, InPtr}
EmbTys == Ins \cup {Ptr(x) : x \in Ins}
StEmb == UNION {{St(<<Emb(N_E, tag, T), Fld(g, t2, Int8)>>), St(<<Fld(g, t2, Int8), Emb(N_E, tag, T)>>)} :
                 tag \in {G_none, G_e, G_omit}, T \in EmbTys, g \in {N_A, N_B}, t2 \in {G_none, G_a}}
StEmb2 == {St(<<Emb(N_E, G_none, p[1]), Emb(N_F, G_none, p[2])>>) : p \in {q \in EmbTys \X EmbTys : EmbTy(q[1]) # EmbTy(q[2])}}

-----------------------------------------------------------------------------
(* Contents.                                                               *)
W_s(s) == [t |-> "str", b |-> s]
W_i(s) == [t |-> "int", b |-> s]
W_f(n, d, e) == [t |-> "flt", neg |-> n, dg |-> d, e |-> e]
W_if(v) == [t |-> "if", v |-> v]
W_b(x) == [t |-> "bool", tf |-> x]
K_a == <<97>>  K_lt == <<60>>
Some2(S) == LET x == CHOOSE x \in S : TRUE IN IF S = {x} THEN S ELSE {x, CHOOSE y \in S : y # x}
RECURSIVE Vals(_)
KeysOf(k) == IF k.t = "int" THEN IF k.uns THEN <<<<49, 48>>, <<50>>>> ELSE <<<<45, 49>>, <<55>>>> ELSE <<K_lt, K_a>>
Vals(T) ==
  CASE T.t = "bool" -> {W_b(TRUE), W_b(FALSE)}
    [] T.t = "int" -> {W_i(<<48>>), W_i(<<55>>)} \cup (IF T.uns THEN {W_i(T.hi)} ELSE {W_i(<<MINUS>> \o T.lo)})
    [] T.t = "f64" -> {W_f(FALSE, <<48>>, 0), W_f(TRUE, <<48>>, 0), W_f(TRUE, <<49, 53>>, 0), W_f(FALSE, <<49>>, 21), W_f(FALSE, <<49, 50>>, -7)}
    [] T.t = "str" -> {W_s(<<>>), W_s(<<60, 97>>), W_s(<<226, 128, 168, 1, 34>>), W_s(<<27, 91, 109>>)}
    [] T.t = "num" -> {[t |-> "num", b |-> <<>>], [t |-> "num", b |-> <<49, 101, 50>>], [t |-> "num", b |-> <<48, 49>>]}
    [] T.t = "bytes" -> {Nil, [t |-> "bytes", b |-> <<>>], [t |-> "bytes", b |-> <<255, 0>>]}
    [] T.t = "any" -> {Nil, W_if(W_b(TRUE)), W_if(W_s(<<38>>)), W_if([t |-> "arr", a |-> <<Nil, W_if(W_f(FALSE, <<50>>, 1))>>]),
                       W_if([t |-> "map", m |-> <<[k |-> K_lt, v |-> Nil], [k |-> K_a, v |-> W_if([t |-> "arr", a |-> <<>>])]>>])}
    [] T.t = "ptr" -> {Nil} \cup {[t |-> "ptr", v |-> x] : x \in Vals(T.e)}
    [] T.t = "slice" -> LET V == Vals(T.e)  S == Some2(V) IN
         {Nil, [t |-> "arr", a |-> <<>>]} \cup {[t |-> "arr", a |-> <<x>>] : x \in V} \cup {[t |-> "arr", a |-> <<x, y>>] : x, y \in S}
    [] T.t = "array" -> IF T.n = 0 THEN {[t |-> "arr", a |-> <<>>]}
                        ELSE IF T.n = 1 THEN {[t |-> "arr", a |-> <<x>>] : x \in Vals(T.e)}
                        ELSE {[t |-> "arr", a |-> <<x, y>>] : x, y \in Vals(T.e)}
    [] T.t = "map" -> LET V == Vals(T.e)  S == Some2(V)  k == KeysOf(T.k) IN
         {Nil, [t |-> "map", m |-> <<>>]} \cup {[t |-> "map", m |-> <<[k |-> k[2], v |-> x]>>] : x \in V}
         \cup {[t |-> "map", m |-> <<[k |-> k[1], v |-> x], [k |-> k[2], v |-> y]>>] : x, y \in S}
    [] T.t = "st" ->
         IF Len(T.f) = 1 THEN {[t |-> "st", fs |-> <<x>>] : x \in Vals(T.f[1].ty)}
         ELSE IF Len(T.f) = 2 THEN {[t |-> "st", fs |-> <<x, y>>] : x \in Vals(T.f[1].ty), y \in Vals(T.f[2].ty)}
         ELSE {[t |-> "st", fs |-> <<x, y, z>>] : x \in Some2(Vals(T.f[1].ty)), y \in Some2(Vals(T.f[2].ty)), z \in Vals(T.f[3].ty)}

\* The Go value of a variable of type T with contents W.
RECURSIVE Gv(_, _)
Held(v) ==      \* what an empty interface holds
  CASE v.t = "arr" -> [t |-> "arr", sl |-> TRUE, a |-> TLCEval([i \in 1..Len(v.a) |-> Gv(AnyT, v.a[i])])]
    [] v.t = "map" -> Gv(Map_(Str, AnyT), v)
    [] v.t = "bool" -> Gv(Bool, v) [] v.t = "flt" -> Gv(F64, v)
    [] OTHER -> v
Gv(T, W) ==
  CASE W.t = "nil" -> W
    [] W.t = "bool" -> [t |-> "bool", v |-> W.tf]
    [] W.t = "flt" -> [t |-> "flt", neg |-> W.neg, d |-> W.dg, e |-> W.e]
    [] W.t = "if" -> [t |-> "if", v |-> Held(W.v)]
    [] W.t = "ptr" -> [t |-> "ptr", v |-> Gv(T.e, W.v)]
    [] W.t = "arr" -> [t |-> "arr", sl |-> T.t = "slice", a |-> TLCEval([i \in 1..Len(W.a) |-> Gv(T.e, W.a[i])])]
    [] W.t = "map" -> [t |-> "map", m |-> TLCEval([i \in 1..Len(W.m) |-> [k |-> W.m[i].k, e |-> FALSE, v |-> Gv(T.e, W.m[i].v)]])]
    [] W.t = "st" -> [t |-> "st", f |-> TLCEval([i \in 1..Len(T.f) |->
         LET f == T.f[i] IN
         [g |-> f.g, tag |-> f.tag, an |-> f.an, ex |-> f.ex, es |-> f.es,
          v |-> IF f.an /\ f.ty.t = "ptr" /\ W.fs[i].t = "nil" /\ TagName(f.tag) = <<>>
                THEN [t |-> "nilst", v |-> Gv(f.ty.e, Zero(f.ty.e))] ELSE Gv(f.ty, W.fs[i])]])]
    [] OTHER -> W
=============================================================================
