------------------------------- MODULE DecOps -------------------------------
(***************************************************************************)
(* The recorded steps of the decoding side (C09 - C12, C14, C15, C17), and *)
(* whether the specification allows them.                                  *)
(***************************************************************************)
EXTENDS Decode, Verdict

Ctx(o, b) == [b |-> b, num |-> o.num, dis |-> o.dis, ci |-> o.ci, nums |-> o.nums, times |-> o.times]

\* C09: the accepted language.
AcceptOk(o) ==
  LET v == ValidDoc(o.b) IN
  /\ ~o.pn
  /\ o.valid = v
  /\ o.any = v
  /\ o.raw = v
  /\ ~v => \A i \in 1..Len(o.typed) : ~o.typed[i]

\* One decoding of a whole text (C10, C11, C12).
DecOk(o) ==
  LET c == Ctx(o, o.b) IN
  /\ ~o.pn
  /\ o.same
  /\ IF ~ValidDoc(o.b) THEN o.err
     ELSE LET D == TLCEval(SpanTree(o.b))
              r == TLCEval(Into(o.ty, D, o.w0, c)) IN
          IF r.ok THEN ~o.err /\ o.w1 = r.w
          ELSE o.err /\ SlotOk(o.ty, D, c, o.w0, r.w, o.w1)

\* C14: repeated parsing.  st = <<rest of the input>>; every step decodes one
\* value of the given type.
ParseStep(s, o) ==
  LET b == s[1]
      x == First(b, TRUE)
  IN
  IF o.pn \/ ~o.same THEN Bad(s)
  ELSE IF x.r # "ok" THEN If(o.err, s)
  \* A number with a leading zero: an error, or two numbers.
  ELSE IF x.n < Len(b) /\ IsDigit(b[x.n]) /\ IsDigit(b[x.n + 1]) THEN Ok(<<o.rest>>)
  ELSE
    LET v == Sub(b, 1, x.n)
        rest == TrimLeft(From(b, x.n + 1))
        r == TLCEval(Into(o.ty, TLCEval(SpanTree(v)), o.w0, Ctx(o, v)))
    IN  IF r.ok THEN If(~o.err /\ o.rest = rest /\ o.w1 = r.w, <<rest>>)
        ELSE If(o.err, s)

\* Parsing with no place for the value: an error that says so, and the
\* remainder begins after the value all the same (white space may be left).
ParseNo(s, o) ==
  LET b == s[1]
      x == First(b, TRUE)
  IN
  IF o.pn \/ ~o.same \/ ~o.err THEN Bad(s)
  ELSE IF x.r # "ok" THEN Ok(s)
  ELSE IF x.n < Len(b) /\ IsDigit(b[x.n]) /\ IsDigit(b[x.n + 1]) THEN Ok(<<o.rest>>)
  ELSE
    LET rest == TrimLeft(From(b, x.n + 1)) IN
    If(o.inv /\ TrimLeft(o.rest) = rest /\ Len(o.rest) <= Len(b) - x.n, <<o.rest>>)

\* C15: st = everything decoded so far (as it has to stay).  o.ws is what all
\* these variables contain now.
KeepStep(s, o) ==
  IF o.pn THEN Bad(s)
  ELSE IF o.k = "kdec" THEN
    LET r == TLCEval(Whole(o.ty, o.w0, Ctx(o, o.b))) IN
    IF r.ok THEN If(~o.err /\ o.w1 = r.w, Append(s, r.w))
    ELSE If(o.err, Append(s, [t |-> "err", b |-> o.msg]))
  ELSE If(o.ws = s, s)                 \* after a disturbance

\* C17: encoding and decoding again.
RECURSIVE Norm(_, _)
\* What the empty-value rule of option "omitempty" calls empty.
EmptyW(w) ==
  CASE w.t = "nil" -> TRUE
    [] w.t = "bool" -> ~w.tf
    [] w.t = "int" -> w.b = <<48>>
    [] w.t = "flt" -> w.dg = <<48>>
    [] w.t \in {"str", "num", "bytes", "raw"} -> w.b = <<>>
    [] w.t = "arr" -> w.a = <<>>
    [] w.t = "map" -> w.m = <<>>
    [] OTHER -> FALSE
\* What encoding does not carry over: hidden fields, and the difference
\* between empty and absent where "omitempty" drops the field.
RECURSIVE ValueAt(_, _)
ValueAt(w, p) ==
  IF p = <<>> THEN w
  ELSE IF w.t = "nil" THEN w
  ELSE IF w.t = "ptr" THEN ValueAt(w.v, p)
  ELSE ValueAt(w.fs[p[1]], Tail(p))
RECURSIVE ThereAt(_, _)
ThereAt(w, p) ==        \* no nil pointer in between
  IF p = <<>> THEN TRUE
  ELSE IF w.t = "nil" THEN FALSE
  ELSE IF w.t = "ptr" THEN ThereAt(w.v, p)
  ELSE ThereAt(w.fs[p[1]], Tail(p))
RECURSIVE NormAt(_, _, _, _)
NormAt(T, w, paths, pre) ==
  [t |-> "st", fs |-> TLCEval([i \in 1..Len(T.f) |->
     LET p == Append(pre, i)
         f == T.f[i]
         here == {x \in paths : x.path = p}
         under == {x \in paths : Len(x.path) > Len(p) /\ Sub(x.path, 1, Len(p)) = p}
         below == under # {}
         some == \E x \in under :
                     LET q == From(x.path, Len(p) + 1) IN ThereAt(w.fs[i], q) /\ ~(x.om /\ EmptyW(ValueAt(w.fs[i], q)))
     IN
     IF here # {} THEN
       LET x == CHOOSE y \in here : TRUE IN
       IF x.om /\ EmptyW(w.fs[i]) THEN Zero(f.ty) ELSE Norm(f.ty, w.fs[i])
     ELSE IF ~below THEN Zero(f.ty)
     ELSE IF f.ty.t = "ptr" THEN
       IF w.fs[i].t = "nil" \/ ~some THEN Nil ELSE [t |-> "ptr", v |-> NormAt(f.ty.e, w.fs[i].v, paths, p)]
     ELSE NormAt(f.ty, w.fs[i], paths, p)])]
Norm(T, w) ==
  CASE T.t = "st" -> LET fs == TLCEval(TypeFields(T)) IN NormAt(T, w, {fs[i] : i \in 1..Len(fs)}, <<>>)
    [] T.t = "ptr" /\ w.t = "ptr" -> [t |-> "ptr", v |-> Norm(T.e, w.v)]
    [] T.t \in {"slice", "array"} /\ w.t = "arr" ->
         [t |-> "arr", a |-> TLCEval([i \in 1..Len(w.a) |-> Norm(T.e, w.a[i])])]
    [] T.t = "map" /\ w.t = "map" ->
         [t |-> "map", m |-> TLCEval([i \in 1..Len(w.m) |-> [k |-> w.m[i].k, v |-> Norm(T.e, w.m[i].v)]])]
    [] OTHER -> w
RoundOk(o) ==
  /\ ~o.pn /\ ~o.eerr /\ ~o.derr
  /\ ValidDoc(o.b)
  /\ LET n == TLCEval(Norm(o.ty, o.w0)) IN
     /\ o.w1 = n
     /\ LET r == Whole(o.ty, Zero(o.ty), Ctx(o, o.b)) IN r.ok /\ r.w = n
\* Untyped: decode, encode, decode, encode.
FixOk(o) ==
  LET r == TLCEval(AnyVal(TLCEval(SpanTree(o.b)), Ctx(o, o.b))) IN
  /\ ~o.pn
  /\ IF ~r.ok THEN o.err
     ELSE ~o.err /\ o.a1 = r.w /\ o.a2 = r.w /\ ValidDoc(o.e1) /\ o.e2 = o.e1

DecKinds == {"accept", "dec", "input", "parse", "parseno", "keep", "kdec", "check", "round", "fix"}
DecStep(s, o) ==
  CASE o.k = "accept" -> If(AcceptOk(o), s)
    [] o.k = "dec" -> If(DecOk(o), s)
    [] o.k = "input" -> Ok(<<o.b>>)
    [] o.k = "parse" -> ParseStep(s, o)
    [] o.k = "parseno" -> ParseNo(s, o)
    [] o.k = "keep" -> Ok(<<>>)
    [] o.k \in {"kdec", "check"} -> KeepStep(s, o)
    [] o.k = "round" -> If(RoundOk(o), s)
    [] o.k = "fix" -> If(FixOk(o), s)
=============================================================================
