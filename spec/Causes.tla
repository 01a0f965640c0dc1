------------------------------- MODULE Causes -------------------------------
(***************************************************************************)
(* What an error says: the classes an error may have, given what is wrong  *)
(* with the value or the document.                                         *)
(*                                                                         *)
(*   own     the error of the caller's own marshaler or unmarshaler        *)
(*   type    (decoding) the document does not suit the variable            *)
(*   utype   (encoding) a type that has no JSON form                       *)
(*   uvalue  (encoding) a value that has no JSON form                      *)
(*   syntax  the text is malformed                                         *)
(*   dest    there is no variable to decode into                           *)
(*   base64  the text of a byte slice is not base64                        *)
(*   other   none of these                                                 *)
(* An observed error is the set of the classes it has.                     *)
(***************************************************************************)
EXTENDS Decode, Verdict

Unite(ss) == UNION {ss[i] : i \in 1..Len(ss)}

-----------------------------------------------------------------------------
(* Encoding: the causes in a value (none if it can be encoded).            *)
RECURSIVE EncWhy(_, _, _)
FieldWhy(f, c) ==
  IF f.qu /\ Quotable(f.v) THEN EncWhy(f.v, c, FALSE)
  ELSE IF f.qu /\ f.v.t = "ptr" /\ Quotable(f.v.v) THEN EncWhy(f.v.v, c, FALSE)
  ELSE EncWhy(f.v, c, f.ad)
EncWhy(v, c, addr) ==
  CASE v.t = "num" -> IF IsNumber(NumText(v.b)) THEN {} ELSE {"any"}
    [] v.t = "raw" \/ v.t = "mj" -> IF ValidDoc(v.b) THEN {} ELSE {"uvalue"}
    [] v.t \in {"badflt", "badtime", "mjnil"} -> {"uvalue"}
    [] v.t \in {"texterr", "mjerr"} -> {"own"}
    [] v.t = "bad" -> {"utype"}
    [] v.t = "pm" -> IF addr THEN EncWhy(v.m, c, addr) ELSE EncWhy(v.v, c, FALSE)
    [] v.t = "ptr" -> EncWhy(v.v, c, TRUE)
    [] v.t = "if" -> EncWhy(v.v, c, FALSE)
    [] v.t = "arr" -> Unite([i \in 1..Len(v.a) |-> EncWhy(v.a[i], c, v.sl \/ addr)])
    [] v.t = "map" -> Unite([i \in 1..Len(v.m) |-> IF v.m[i].e THEN {"own"} ELSE EncWhy(v.m[i].v, c, FALSE)])
    [] v.t = "st" ->
         LET fs == TLCEval(SelectSeq(Fields(v, addr), LAMBDA f : ~f.no /\ ~(f.om /\ Empty(f.v)))) IN
         Unite([i \in 1..Len(fs) |-> FieldWhy(fs[i], c)])
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Decoding: the causes in a document D for a variable of type T with      *)
(* contents W (none if it can be decoded).  A cause is a class and the     *)
(* place of the value that is at fault: the member names, map keys and     *)
(* element indexes that lead to it, each followed by a dot.  The text of a *)
(* key that marshals itself is the caller's: a place with a -1.            *)
Cause(cl) == {[cl |-> cl, at |-> <<>>]}
Classes_(why) == {x.cl : x \in why}
Below(k, why) == {[cl |-> x.cl, at |-> k \o <<46>> \o x.at] : x \in why}
TypeWhy(ok) == IF ok THEN {} ELSE Cause("type")
RECURSIVE DecWhy(_, _, _, _)
RECURSIVE PathWhy(_, _, _, _, _, _)
PathWhy(T, W, path, qu, D, c) ==
  LET i == path[1]  f == T.f[i]  old == W.fs[i] IN
  IF Len(path) = 1 THEN
    IF qu /\ (IF f.ty.t = "ptr" THEN f.ty.e ELSE f.ty).t \in {"bool", "int", "f64", "f32", "str", "num", "dur"}
    THEN IF Quoted(f.ty, D, old, c).ok THEN {} ELSE Cause("any")
    ELSE DecWhy(f.ty, D, old, c)
  ELSE IF f.ty.t = "ptr" THEN
    IF old.t = "nil" /\ ~f.ex THEN Cause("other")
    ELSE PathWhy(f.ty.e, IF old.t = "ptr" THEN old.v ELSE Zero(f.ty.e), Tail(path), qu, D, c)
  ELSE PathWhy(f.ty, old, Tail(path), qu, D, c)
OwnWhy(T, D, W, c) == IF Into(T, D, W, c).ok THEN {} ELSE Cause("own")
\* A key that does not suit: at the map or at the entry.
KeyWhy(K, k) ==
  IF MapKey(K, k).ok THEN {}
  ELSE LET x == Cause(IF K.t = "int" THEN "type" ELSE "own") IN x \union Below(k, x)
Entry(K, k) == IF K.t \in {"str", "int"} THEN k ELSE <<-1>>
DecWhy(T, D, W, c) ==
  CASE T.t \in {"any", "iface"} /\ T.in # <<>> /\ W.t = "if" ->
         IF IsNull(D) THEN {} ELSE DecWhy(T.in[1], D, W.v, c)
    [] IsNull(D) -> {}
    [] T.t = "bytes" /\ D.k = "a" ->
         Unite([i \in 1..Len(D.es) |->
                 Below(Digits(i - 1), TypeWhy(Into(T, [D EXCEPT !.es = <<D.es[i]>>], W, c).ok))])
    [] T.t = "any" /\ D.k = "a" ->
         Unite([i \in 1..Len(D.es) |-> Below(Digits(i - 1), DecWhy(T, D.es[i], Nil, c))])
    [] T.t = "any" /\ D.k = "o" ->
         Unite([i \in 1..Len(D.ms) |-> Below(Unquote(D.ms[i].n), DecWhy(T, D.ms[i].v, Nil, c))])
    [] T.t = "bytes" \/ (T.t = "slice" /\ T.e.t \in {"ub", "uv"} /\ Is(D, "str")) ->
         IF Into(T, D, W, c).ok THEN {} ELSE Cause(IF Is(D, "str") THEN "base64" ELSE "type")
    [] T.t = "uj" -> OwnWhy(T, D, W, c)
    [] T.t = "ut" \/ (T.t \in {"ub", "uv"} /\ T.text) -> IF Is(D, "str") THEN OwnWhy(T, D, W, c) ELSE Cause("type")
    [] T.t \in {"ub", "uv"} -> OwnWhy(T, D, W, c)
    [] T.t = "ptr" -> DecWhy(T.e, D, IF W.t = "ptr" THEN W.v ELSE Zero(T.e), c)
    [] T.t = "slice" /\ D.k = "a" ->
         LET z == TLCEval(Zero(T.e)) IN
         Unite([i \in 1..Len(D.es) |-> Below(Digits(i - 1), DecWhy(T.e, D.es[i], z, c))])
    [] T.t = "array" /\ D.k = "a" ->
         Unite([i \in 1..(IF Len(D.es) < T.n THEN Len(D.es) ELSE T.n) |->
                 Below(Digits(i - 1), DecWhy(T.e, D.es[i], W.a[i], c))])
    [] T.t = "map" /\ D.k = "o" ->
         LET z == TLCEval(Zero(T.e)) IN
         Unite([i \in 1..Len(D.ms) |->
                 LET k == TLCEval(Unquote(D.ms[i].n)) IN
                 KeyWhy(T.k, k) \union Below(Entry(T.k, k), DecWhy(T.e, D.ms[i].v, z, c))])
    [] T.t = "st" /\ D.k = "o" ->
         LET fs == TLCEval(TypeFields(T)) IN
         FoldLeft(LAMBDA a, mb :
                    LET k == TLCEval(Unquote(mb.n))
                        i == FieldFor(fs, k, c.ci) IN
                    IF i = 0 THEN <<a[1], IF c.dis THEN a[2] \union Cause("other") ELSE a[2]>>
                    ELSE <<AtPath(T, a[1], fs[i].path, fs[i].qu, mb.v, c).w,
                           a[2] \union Below(k, PathWhy(T, a[1], fs[i].path, fs[i].qu, mb.v, c))>>,
                  <<W, {}>>, D.ms)[2]
    [] OTHER -> TypeWhy(Into(T, D, W, c).ok)

-----------------------------------------------------------------------------
(* Recorded steps.  got: for every way of making the call, the classes of  *)
(* the error (<<"none">>: no error).                                       *)
Classes(s) == {s[i] : i \in 1..Len(s)}
Tells(why, cls) ==
  IF why = {} THEN cls = {"none"}
  ELSE /\ cls # {"none"}
       /\ "any" \in why \/ cls \intersect why # {}
\* The place a type error names is the place of one (the last dot is optional).
Located(why, at) ==
  \E x \in why : x.cl = "type" /\ (x.at = at \/ x.at = at \o <<46>> \/ \E i \in 1..Len(x.at) : x.at[i] = -1)
EncWhyOk(o) ==
  LET why == TLCEval(EncWhy(o.v, o.cfg, FALSE)) IN
  ~o.pn /\ \A i \in 1..Len(o.got) : Tells(why, Classes(o.got[i]))
\* A malformed text fails; if the variable takes any text, with an error of
\* class syntax (a typed one may notice first that the text does not suit it).
Untyped(T) == T.t = "raw" \/ (T.t = "any" /\ T.in = <<>>)
DecWhyOk(o) ==
  LET c == [b |-> o.b, num |-> o.num, dis |-> o.dis, ci |-> o.ci, nums |-> o.nums, times |-> o.times] IN
  /\ ~o.pn
  /\ IF ~ValidDoc(o.b)
     THEN \A i \in 1..Len(o.got) :
            LET cls == Classes(o.got[i]) IN cls # {"none"} /\ (Untyped(o.ty) => "syntax" \in cls)
     ELSE LET why == TLCEval(DecWhy(o.ty, TLCEval(SpanTree(o.b)), o.w0, c)) IN
          \A i \in 1..Len(o.got) :
            LET cls == Classes(o.got[i]) IN
            /\ Tells(Classes_(why), cls)
            /\ "any" \in Classes_(why) \/ ("syntax" \notin cls /\ ("type" \in cls => Located(why, o.at[i])))
\* No variable to decode into.
DestOk(o) ==
  /\ ~o.pn
  /\ \A i \in 1..Len(o.got) : Classes(o.got[i]) = IF ValidDoc(o.b) THEN {"dest"} ELSE {"syntax"}

WhyKinds == {"encwhy", "decwhy", "dest"}
WhyStep(s, o) ==
  CASE o.k = "encwhy" -> If(EncWhyOk(o), s)
    [] o.k = "decwhy" -> If(DecWhyOk(o), s)
    [] o.k = "dest" -> If(DestOk(o), s)
=============================================================================
