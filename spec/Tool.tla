-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The command cmd/jc (C20): what a run does, as a machine, and what every *)
(* finished run has to look like, whoever made it.                         *)
(*                                                                         *)
(* A run record has                                                        *)
(*   in    the bytes of the input        rd   the input can be read        *)
(*   p, c  the flags                     no, force, term   the environment *)
(*   dst   "stdout" or "file" (-o)       wr   the kind of standard output  *)
(*   can   the output can be written                                       *)
(* and, when finished,                                                     *)
(*   rc    exit code   out  standard output   msg  something on stderr     *)
(*   pn    it crashed  fb, fa  the file before and after: <<>> or <<bytes>>*)
(***************************************************************************)
EXTENDS Decode, Verdict

T == INSTANCE Terminal WITH no <- "", force <- "", term <- "", wr <- [w |-> "nil", closed |-> FALSE], asked <- ""

-----------------------------------------------------------------------------
(* Values: numbers as decimals, objects as maps.                           *)
FirstOf(b, S) == LET I == {i \in 1..Len(b) : b[i] \in S} IN IF I = {} THEN Len(b) + 1 ELSE MinOf(I)
SignedVal(b) ==
  IF b = <<>> THEN 0
  ELSE IF b[1] = MINUS THEN 0 - SmallVal(Tail(b))
  ELSE IF b[1] = PLUS THEN SmallVal(Tail(b)) ELSE SmallVal(b)
\* Within the number range of the property (and of TLC's integers).
InRange(x) == LET e == From(x, FirstOf(x, {69, 101}) + 1) IN Len(x) <= 250 /\ Len(e) <= 3
DecOf(x) ==
  LET m == Mag(x)
      e == FirstOf(m, {69, 101})
      mant == Sub(m, 1, e - 1)
      dot == FirstOf(mant, {DOT})
      frac == From(mant, dot + 1)
      ds == Sub(mant, 1, dot - 1) \o frac
      nz == {i \in 1..Len(ds) : ds[i] # 48}
  IN  IF nz = {} THEN [neg |-> FALSE, d |-> <<>>, e |-> 0]
      ELSE LET lo == MinOf(nz)
               hi == CHOOSE i \in nz : \A j \in nz : j <= i
           IN  [neg |-> x[1] = MINUS, d |-> SubSeq(ds, lo, hi),
                e |-> SignedVal(From(m, e + 1)) - Len(frac) + (Len(ds) - hi)]
RECURSIVE Val(_)
Val(D) ==
  IF D.k = "s" THEN
    CASE D.c = "num" -> [t |-> "num", n |-> TLCEval(DecOf(D.x))]
      [] D.c = "str" -> [t |-> "str", b |-> Unquote(D.x)]
      [] OTHER -> [t |-> "lit", b |-> D.x]
  ELSE IF D.k = "a" THEN [t |-> "arr", a |-> TLCEval([i \in 1..Len(D.es) |-> Val(D.es[i])])]
  ELSE [t |-> "map", m |-> FoldLeft(LAMBDA a, mb : MapPut(a, Unquote(mb.n), TLCEval(Val(mb.v))), <<>>, D.ms)]
ValueOf(b) == Val(TLCEval(SpanTree(b)))
NumbersInRange(b) ==
  LET ts == TLCEval(LexAll(b)[2])
  IN  \A i \in 1..Len(ts) : ts[i][1] = K_NUM => InRange(Sub(b, ts[i][2], ts[i][3]))

-----------------------------------------------------------------------------
(* What a finished run looks like.                                         *)
Palette == [on |-> TRUE, null |-> <<27, 91, 50, 109>>, bool |-> <<27, 91, 49, 109>>, num |-> <<27, 91, 51, 54, 109>>,
            str |-> <<27, 91, 51, 50, 109>>, key |-> <<27, 91, 51, 52, 59, 49, 109>>, bytes |-> <<27, 91, 50, 109>>,
            time |-> <<27, 91, 51, 50, 59, 50, 109>>, text |-> <<27, 91, 51, 50, 109>>, punc |-> <<>>,
            brk |-> <<>>, brc |-> <<>>, com |-> <<>>, col |-> <<>>]
Coloured(r) ==
  /\ r.c
  /\ T!Colour(r.no, r.force, r.term, [w |-> IF r.dst = "file" THEN "regular" ELSE r.wr, closed |-> FALSE])
Layout(r) == IF r.p THEN Indent(<<>>, <<SP, SP>>) ELSE NoIndent
Palette_(r) == IF Coloured(r) THEN Palette ELSE NoColors
\* x is the document in, written as r asks.
Written(r, x) ==
  /\ x # <<>> /\ x[Len(x)] = LF
  /\ LET y == TLCEval(Sub(x, 1, Len(x) - 1))
         plain == TLCEval(IF Coloured(r) THEN Strip(y) ELSE y)
     IN  /\ ValidDoc(plain)
         /\ ValueOf(plain) = ValueOf(r.in)
         /\ y = Render(TokensOf(plain), Layout(r), Palette_(r))
Unchanged(r) == r.fb # <<>> => r.fa = r.fb
RunOk(r) ==
  IF r.rd /\ ValidDoc(r.in) THEN
    IF ~NumbersInRange(r.in) THEN ~r.pn
    ELSE IF ~r.can THEN r.rc # 0 /\ r.msg /\ ~r.pn /\ (r.dst = "file" => r.out = <<>>)
    ELSE /\ r.rc = 0 /\ ~r.pn
         /\ (IF r.dst = "file" THEN r.out = <<>> /\ r.fa # <<>> /\ Written(r, r.fa[1])
             ELSE Written(r, r.out) /\ r.fa = r.fb)
  ELSE r.rc # 0 /\ r.msg /\ ~r.pn /\ r.out = <<>> /\ Unchanged(r)

-----------------------------------------------------------------------------
(* The machine.                                                            *)
D_mixed == <<123, 34, 97, 34, 58, 91, 49, 44, 116, 114, 117, 101, 44, 110, 117, 108, 108, 44, 34, 120, 34, 93, 44, 34, 98, 34, 58, 123, 125, 125>>
D_big == <<32, 57, 48, 48, 55, 49, 57, 57, 50, 53, 52, 55, 52, 48, 57, 57, 51, 10>>
D_cut == <<123, 34, 97, 34, 58, 49>>
D_empty == <<>>
D_two == <<49, 32, 50>>
D_colour == <<91, 34, 92, 117, 48, 48, 49, 98, 91, 48, 109, 34, 44, 91, 93, 93>>
Texts_ == {D_mixed, D_big, D_cut, D_empty, D_two, D_colour}
Old == <<<<111, 108, 100, 32, 99, 111, 110, 116, 101, 110, 116, 115, 32, 116, 104, 97, 116, 32, 97, 114, 101, 32, 108, 111, 110, 103, 101, 114, 32, 116, 104, 97, 110, 32, 97, 108, 108, 32, 111, 117, 116, 112, 117, 116, 115, 32, 111, 102, 32, 116, 104, 101, 32, 109, 97, 99, 104, 105, 110, 101, 10>>>>

\* Where input comes from, and where output goes.
Sources == {"stdinpipe", "stdinfile", "iflag", "imissing", "idir", "stdinnull", "stdindir"}
Readable(s) == s \in {"stdinpipe", "stdinfile", "iflag"}
Targets == {"pipe", "regular", "tty", "onew", "oold", "odirs", "odir", "ounder", "olink", "otty", "olimit", "full"}
Writable(t) == t \notin {"odir", "ounder", "olimit", "full"}
IsFile(t) == t \in {"onew", "oold", "odirs", "odir", "ounder", "olink", "otty", "olimit"}
StdoutKind(t) == CASE t \in {"tty", "regular"} -> t [] t = "otty" -> "tty" [] t = "full" -> "null" [] OTHER -> "pipe"

VARIABLES run, src, tgt, pc
vars == <<run, src, tgt, pc>>
Start(text, s, t, p, c, no, force, term) ==
  [in |-> text, rd |-> Readable(s), p |-> p, c |-> c, no |-> no, force |-> force, term |-> term,
   dst |-> IF IsFile(t) THEN "file" ELSE "stdout", wr |-> StdoutKind(t), can |-> Writable(t),
   rc |-> 99, out |-> <<>>, msg |-> FALSE, pn |-> FALSE,
   fb |-> IF t \in {"oold", "olink"} THEN Old ELSE <<>>, fa |-> IF t \in {"oold", "olink"} THEN Old ELSE <<>>]
GoesWrong == pc' = "done" /\ run' = [run EXCEPT !.rc = 1, !.msg = TRUE]
Keep == UNCHANGED <<src, tgt>>
ReadIn == pc = "read" /\ Keep /\ (IF run.rd THEN pc' = "parse" /\ run' = run ELSE GoesWrong)
ParseIn == pc = "parse" /\ Keep /\ (IF ValidDoc(run.in) THEN pc' = "open" /\ run' = run ELSE GoesWrong)
OpenOut == /\ pc = "open" /\ Keep
         /\ IF run.dst = "stdout" THEN pc' = "write" /\ run' = run
            ELSE IF ~run.can THEN GoesWrong
            ELSE pc' = "write" /\ run' = [run EXCEPT !.fa = <<<<>>>>]
\* The texts above have their members in order, once each, and no escapes that
\* are written differently.
Result == LET ts == TokensOf(run.in)
              us == TLCEval([i \in 1..Len(ts) |-> <<ts[i][1], IF ts[i][1] = "str" THEN Quote(Unquote(ts[i][2]), TRUE) ELSE ts[i][2]>>])
          IN  Render(us, Layout(run), Palette_(run)) \o <<LF>>
WriteOut == /\ pc = "write" /\ Keep
         /\ IF ~run.can THEN GoesWrong
            ELSE /\ pc' = "done"
                 /\ run' = IF run.dst = "file" THEN [run EXCEPT !.fa = <<Result>>, !.rc = 0]
                           ELSE [run EXCEPT !.out = Result, !.rc = 0]
Next == ReadIn \/ ParseIn \/ OpenOut \/ WriteOut

\* Every finished run of the machine is what the property asks for.
Clean == pc = "done" => RunOk(run)
\* And the file is not touched before there is something to write.
Late == run.fa # run.fb => pc \in {"write", "done"} /\ ValidDoc(run.in) /\ run.rd
=============================================================================
