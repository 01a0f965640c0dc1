------------------------------ MODULE EnumDec -------------------------------
(***************************************************************************)
(* Every document of Universe decoded into a variable of every type, new   *)
(* or with contents, under every setting that matters, with what has to be *)
(* in the variable afterwards; the harness decodes the documents (C11,     *)
(* C12) in several ways (C13, C14, C15).                                   *)
(***************************************************************************)
EXTENDS Universe, Json, CSV, IOUtils
CONSTANTS TypeSet, DocSet

DecTypes == CASE TypeSet = "plain" -> Scalars \cup One \cup Two
              [] TypeSet = "any" -> {AnyT, Slice(AnyT), Map_(Str, AnyT), Ptr(AnyT), St(<<Fld(N_A, G_none, AnyT)>>)}
              [] TypeSet = "structs" -> StOne \cup StTwo \cup StEmb \cup StEmb2
              [] TypeSet = "some" -> Scalars \cup One \cup Two \cup StTwo \cup {St(<<Fld(N_A, G_none, T)>>) : T \in Scalars}
              [] TypeSet = "deep" -> UNION {{Ptr(e), Slice(e), Map_(Str, e), Arr(1, e), St(<<Fld(N_A, G_none, e)>>)} : e \in Two \cup StEmb}

\* A variable that has been used.
RECURSIVE Used(_)
Used(T) ==
  CASE T.t = "bool" -> W_b(TRUE)
    [] T.t = "int" -> W_i(<<53>>)
    [] T.t = "f64" -> W_f(TRUE, <<50, 53>>, 0)
    [] T.t = "str" -> W_s(<<120, 121>>)
    [] T.t = "num" -> [t |-> "num", b |-> <<49, 101, 50>>]
    [] T.t = "bytes" -> [t |-> "bytes", b |-> <<9, 9, 9>>]
    [] T.t = "any" -> W_if(W_b(TRUE))
    [] T.t = "ptr" -> IF T.e.t = "ptr" THEN Nil ELSE [t |-> "ptr", v |-> Used(T.e)]
    [] T.t = "slice" -> [t |-> "arr", a |-> IF Scalar(T.e) THEN LET x == Used(T.e) IN <<x, x, x>> ELSE <<>>]
    [] T.t = "array" -> LET x == TLCEval(Used(T.e)) IN [t |-> "arr", a |-> TLCEval([i \in 1..T.n |-> x])]
    [] T.t = "map" -> [t |-> "map", m |-> <<[k |-> KeysOf(T.k)[2], v |-> Used(T.e)]>>]
    [] T.t = "st" -> [t |-> "st", fs |-> TLCEval([i \in 1..Len(T.f) |-> Used(T.f[i].ty)])]
    [] OTHER -> Nil
RECURSIVE Filled(_)
Filled(w) ==              \* a slice with elements: null leaves them (not claimed)
  CASE w.t = "arr" -> w.a # <<>>
    [] w.t = "bytes" -> w.b # <<>>
    [] w.t \in {"ptr", "if"} -> Filled(w.v)
    [] w.t = "map" -> \E i \in 1..Len(w.m) : Filled(w.m[i].v)
    [] w.t = "st" -> \E i \in 1..Len(w.fs) : Filled(w.fs[i])
    [] OTHER -> FALSE
RECURSIVE NullIn(_)
NullIn(D) == CASE D.k = "a" -> \E i \in 1..Len(D.es) : IsNull(D.es[i]) \/ NullIn(D.es[i])
               [] D.k = "o" -> \E i \in 1..Len(D.ms) : NullIn(D.ms[i].v)
               [] OTHER -> FALSE
RECURSIVE Has(_, _)
Has(T, k) == \/ T.t = k
             \/ T.t \in {"ptr", "slice", "array", "map"} /\ Has(T.e, k)
             \/ T.t = "st" /\ \E i \in 1..Len(T.f) : Has(T.f[i].ty, k)
Quoting(T) == T.t = "st" /\ \E i \in 1..Len(T.f) : T.f[i].ty.t = "num" /\ HasOpt(T.f[i].tag, O_string)

Ctx0 == [b |-> <<>>, num |-> FALSE, dis |-> FALSE, ci |-> TRUE, nums |-> NumTable, times |-> <<>>]
Opts(T) == {Ctx0} \cup (IF Has(T, "st") THEN {[Ctx0 EXCEPT !.ci = FALSE], [Ctx0 EXCEPT !.dis = TRUE]} ELSE {})
                  \cup (IF Has(T, "any") THEN {[Ctx0 EXCEPT !.num = TRUE]} ELSE {})

Table == TLCEval(LET s == SetToSeq(CASE DocSet = "docs" -> Docs [] DocSet = "trees1" -> Trees1 [] DocSet = "trees2" -> Trees2) IN [i \in 1..Len(s) |-> [b |-> s[i], d |-> TLCEval(SpanTree(s[i]))]])
Nulls == TLCEval([i \in 1..Len(Table) |-> NullIn(Table[i].d)])

\* What a failed decoding may leave: "one" of two contents, or anything.
RECURSIVE Slots(_, _, _, _, _)
Free == [s |-> "free"]
Leaf(old, new) == [s |-> "one", old |-> old, new |-> new]
Slots(T, D, c, old, new) ==
  IF Scalar(T) THEN Leaf(old, new)
  ELSE IF T.t = "ptr" THEN
    IF old.t = "ptr" /\ new.t = "ptr" THEN [s |-> "ptr", v |-> Slots(T.e, D, c, old.v, new.v)] ELSE Free
  ELSE IF T.t = "st" /\ D.k = "o" THEN
    IF NoDups(D, TLCEval(TypeFields(T)), c.ci) THEN
      [s |-> "st", fs |-> TLCEval([i \in 1..Len(T.f) |->
         IF Scalar(T.f[i].ty) /\ ~HasOpt(T.f[i].tag, O_string) THEN Leaf(old.fs[i], new.fs[i]) ELSE Free])]
    ELSE Free
  ELSE IF T.t = "st" THEN Leaf(old, old)
  ELSE Free

Min2(x, y) == IF x < y THEN x ELSE y
VARIABLES ty, w, c, stage
vars == <<ty, w, c, stage>>
Init == ty \in DecTypes /\ w = <<>> /\ c = Ctx0 /\ stage = 0
Result(i) ==
  LET r == TLCEval(Into(ty, Table[i].d, w, [c EXCEPT !.b = Table[i].b]))
  IN  [b |-> Table[i].b, ok |-> r.ok, w |-> IF r.ok THEN <<r.w>> ELSE <<>>,
       s |-> IF r.ok THEN <<>> ELSE <<Slots(ty, Table[i].d, c, w, r.w)>>]
Todo == {i \in 1..Len(Table) : ~(Filled(w) /\ Nulls[i])}
\* Lines are written at once if they are not too long.
Line(q) == ToJson([ty |-> ty, w |-> w, num |-> c.num, dis |-> c.dis, ci |-> c.ci,
                   docs |-> TLCEval([i \in 1..Len(q) |-> Result(q[i])])])
Write(l) == Assert(Len(l) < 8000, l) /\ CSVWrite("%1$s", <<l>>, IOEnv.CASES)
N_ == 5
Out == LET q == TLCEval(SetToSeq(Todo)) IN
       \A k \in 0..((Len(q) - 1) \div N_) : Write(Line(Sub(q, k * N_ + 1, Min2(Len(q), k * N_ + N_))))
Next == \/ stage = 0 /\ ~Quoting(ty) /\ stage' = 1 /\ ty' = ty
           /\ w' \in {TLCEval(Zero(ty)), TLCEval(Used(ty))} /\ c' \in Opts(ty)
        \/ stage = 1 /\ stage' = 2 /\ UNCHANGED <<ty, w, c>> /\ Out
=============================================================================
