-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Documents of any size without depth, given by a few numbers: an array   *)
(* or object of n members, a string or a member name of n units, n bytes   *)
(* of white space, a number of n digits.                                   *)
(*                                                                         *)
(* What has to be observed on such a document follows a pattern along the  *)
(* n repetitions.  The pattern is checked here against the general         *)
(* definitions for all small n, and the harness then holds the real code   *)
(* to it around every power of two up to some 100 KB, past the sizes of    *)
(* all buffers, pools and small integers.                                  *)
(***************************************************************************)
EXTENDS Encode, Tokens, Reformat, Json, CSV, IOUtils
CONSTANTS SmallTo, Sizes, Faults

\* In texts: 0, 1, 2 are line breaks at that level, 3 the space after a colon
\* (layout only), 4 the number of the repetition in six digits, 5 white space
\* of no meaning (never laid out).
Ctr(i) == [j \in 1..6 |-> 48 + ((i \div (10 ^ (6 - j))) % 10)]

\* Members: text, and tokens <<text, depth, position (-1: i-th), is a key>>.
One(b) == [x |-> b, ts |-> <<<<b, 1, -1, FALSE>>>>]
Members ==
  {One(<<49>>), One(<<QUOTE, 120, QUOTE>>), One(T_null), One(T_true), One(<<MINUS, 50, DOT, 53>>),
   [x |-> <<LBRACK, RBRACK>>, ts |-> <<<<<<LBRACK>>, 1, -1, FALSE>>, <<<<RBRACK>>, 1, -1, FALSE>>>>],
   [x |-> <<LBRACE, RBRACE>>, ts |-> <<<<<<LBRACE>>, 1, -1, FALSE>>, <<<<RBRACE>>, 1, -1, FALSE>>>>],
   [x |-> <<LBRACK, 2>> \o T_true \o <<1, RBRACK>>,
    ts |-> <<<<<<LBRACK>>, 1, -1, FALSE>>, <<T_true, 2, 0, FALSE>>, <<<<RBRACK>>, 1, -1, FALSE>>>>],
   [x |-> <<LBRACE, 2, QUOTE, 107, QUOTE, COLON, 3, 49, 1, RBRACE>>,
    ts |-> <<<<<<LBRACE>>, 1, -1, FALSE>>, <<<<QUOTE, 107, QUOTE>>, 2, 0, TRUE>>, <<<<COLON>>, 2, 0, FALSE>>,
             <<<<49>>, 2, 0, FALSE>>, <<<<RBRACE>>, 1, -1, FALSE>>>>]}

\* Units of strings: t in the document, d what it denotes, and how an encoder
\* writes that: h with, p without HTML escaping; r: t in a raw message with
\* HTML escaping.
U(t, d, h, p, r) == [t |-> t, d |-> d, h |-> h, p |-> p, r |-> r]
Same(b) == U(b, b, b, b, b)
E00(a, b) == <<BSLASH, 117, 48, 48, a, b>>
Units ==
  {Same(<<97>>), Same(<<195, 169>>), Same(<<240, 159, 152, 128>>), Same(<<BSLASH, 110>>), Same(<<BSLASH, QUOTE>>),
   U(<<60>>, <<60>>, E00(51, 99), <<60>>, E00(51, 99)),
   U(E00(52, 49), <<65>>, <<65>>, <<65>>, E00(52, 49)),
   U(<<BSLASH, 117, 100, 56, 51, 100, BSLASH, 117, 100, 101, 48, 48>>, <<240, 159, 152, 128>>, <<240, 159, 152, 128>>,
     <<240, 159, 152, 128>>, <<BSLASH, 117, 100, 56, 51, 100, BSLASH, 117, 100, 101, 48, 48>>),
   U(<<226, 128, 168>>, <<226, 128, 168>>, <<BSLASH, 117, 50, 48, 50, 56>>, <<BSLASH, 117, 50, 48, 50, 56>>, <<BSLASH, 117, 50, 48, 50, 56>>),
   Same(<<97, BSLASH, BSLASH>>), Same(<<81, 85, 74, 68>>)}          \* the last one: base64 of ABC
Decoded(u) == IF u.t = <<BSLASH, 110>> THEN <<10>> ELSE IF u.t = <<BSLASH, QUOTE>> THEN <<QUOTE>>
              ELSE IF u.t = <<97, BSLASH, BSLASH>> THEN <<97, BSLASH>> ELSE u.d

-----------------------------------------------------------------------------
(* A document: open, then n times item, sep in between, then close.        *)
\* One more member at the end: of another name, or of the first one's (which
\* it replaces, in value).
Extra(k) == IF k = "objz" THEN <<QUOTE, 122, QUOTE>> ELSE <<QUOTE>> \o Ctr(1) \o <<QUOTE>>
Shape(k, m) ==
  CASE k = "arr" -> [o |-> <<LBRACK, 1>>, i |-> m.x, s |-> <<COMMA, 1>>, c |-> <<0, RBRACK>>,
                     ot |-> <<<<<<LBRACK>>, 0, 0, FALSE>>>>, it |-> m.ts, st |-> <<<<<<COMMA>>, 1, -1, FALSE>>>>, ct |-> <<<<<<RBRACK>>, 0, 0, FALSE>>>>]
    [] k \in {"obj", "objz", "objd"} ->
         [o |-> <<LBRACE, 1>>, i |-> <<QUOTE, 4, QUOTE, COLON, 3>> \o m.x, s |-> <<COMMA, 1>>,
          c |-> IF k = "obj" THEN <<0, RBRACE>> ELSE <<COMMA, 1>> \o Extra(k) \o <<COLON, 3, 55, 0, RBRACE>>,
          ot |-> <<<<<<LBRACE>>, 0, 0, FALSE>>>>,
          it |-> <<<<<<QUOTE, 4, QUOTE>>, 1, -1, TRUE>>, <<<<COLON>>, 1, -1, FALSE>>>> \o m.ts,
          st |-> <<<<<<COMMA>>, 1, -1, FALSE>>>>,
          ct |-> IF k = "obj" THEN <<<<<<RBRACE>>, 0, 0, FALSE>>>>
                 ELSE <<<<<<COMMA>>, 1, -1, FALSE>>, <<Extra(k), 1, -2, TRUE>>, <<<<COLON>>, 1, -2, FALSE>>,
                        <<<<55>>, 1, -2, FALSE>>, <<<<RBRACE>>, 0, 0, FALSE>>>>]
\* Positions: -1 that of the item (of the one before, for separators), -2 n.
Simple(o, i, c) == [o |-> o, i |-> i, s |-> <<>>, c |-> c, ot |-> <<>>, it |-> <<>>, st |-> <<>>, ct |-> <<>>]
StrShape(u) == Simple(<<QUOTE>>, u.t, <<QUOTE>>)
KeyShape(u) == Simple(<<LBRACE, 1, QUOTE>>, u.t, <<QUOTE, COLON, 3, 49, 0, RBRACE>>)
GapShapes == {Simple(<<LBRACK, 1, 49>>, <<5>>, <<COMMA, 1, 50, 0, RBRACK>>), Simple(<<LBRACK, 1, 49, COMMA>>, <<5>>, <<1, 50, 0, RBRACK>>),
              Simple(<<LBRACE, 1, QUOTE, 97, QUOTE>>, <<5>>, <<COLON, 3, 49, 0, RBRACE>>),
              Simple(<<>>, <<5>>, <<49>>), Simple(<<LBRACK>>, <<5>>, <<RBRACK>>)}
NumShapes == {Simple(<<>>, <<55>>, <<>>), Simple(<<48, DOT>>, <<51>>, <<>>), Simple(<<49, DOT, 53, 69, MINUS>>, <<48>>, <<50>>),
              Simple(<<MINUS, 49, DOT>>, <<48>>, <<>>)}

Docs ==
       [k : {"arr"}, sh : {Shape("arr", m) : m \in Members}, u : {<<>>}]
  \cup [k : {"obj"}, sh : {Shape("obj", m) : m \in Members}, u : {<<>>}]
  \cup [k : {"objz"}, sh : {Shape("objz", m) : m \in Members}, u : {<<>>}]
  \cup [k : {"objd"}, sh : {Shape("objd", m) : m \in Members}, u : {<<>>}]
  \cup {[k |-> "str", sh |-> StrShape(u), u |-> <<[u EXCEPT !.d = Decoded(u)]>>] : u \in Units}
  \cup {[k |-> "key", sh |-> KeyShape(u), u |-> <<[u EXCEPT !.d = Decoded(u)]>>] : u \in Units}
  \cup [k : {"gap"}, sh : GapShapes, u : {<<>>}]
  \cup [k : {"num"}, sh : NumShapes, u : {<<>>}]

-----------------------------------------------------------------------------
(* The text and the tokens of document w with n repetitions.               *)
RECURSIVE Lots(_, _)
Lots(b, k) == IF k = 0 THEN <<>> ELSE b \o Lots(b, k - 1)
Brk(lay, k) == <<10>> \o lay.pre \o Lots(lay.in, k)
Text(b, i, lay) ==
  Flat([j \in 1..Len(b) |->
         IF b[j] \in 0..2 THEN (IF lay.on THEN Brk(lay, b[j]) ELSE <<>>)
         ELSE IF b[j] = 3 THEN (IF lay.on THEN <<32>> ELSE <<>>)
         ELSE IF b[j] = 4 THEN Ctr(i) ELSE IF b[j] = 5 THEN (IF lay.on \/ lay.bare THEN <<>> ELSE <<32>>)
         ELSE <<b[j]>>])
Body(w, n, lay, fault) ==
  Flat([i \in 1..n |-> (IF i > 1 THEN Text(w.sh.s, i, lay) ELSE <<>>)
                       \o (IF fault = "sep" /\ i = n THEN <<COMMA>> ELSE <<>>)
                       \o Text(w.sh.i, i, lay)])
TextOf(w, n, lay, fault) ==
  LET open == Text(w.sh.o, 0, lay)
      close == Text(w.sh.c, 0, lay)
      all == TLCEval(open \o Body(w, n, lay, fault) \o close)
  IN CASE fault = "short" -> SubSeq(all, 1, Len(all) - 1)
       [] fault = "ctl" -> TLCEval(open \o Body(w, n, lay, fault) \o <<1>> \o close)
       [] fault = "two" -> all \o <<COMMA>>
       [] OTHER -> all
Given == [on |-> FALSE, bare |-> FALSE, pre |-> <<>>, in |-> <<>>]
Bare == [on |-> FALSE, bare |-> TRUE, pre |-> <<>>, in |-> <<>>]
Layouts == {[on |-> TRUE, bare |-> TRUE, pre |-> <<62>>, in |-> <<46, 9>>], [on |-> TRUE, bare |-> TRUE, pre |-> <<>>, in |-> <<32>>]}

\* Which faults make the document malformed (a shortened number is a number).
IsDoc(w, fault) == fault = "none" \/ (fault = "short" /\ w.k = "num" /\ w.sh.o = <<>>)
Applies(w, n, fault) ==
  CASE fault = "none" -> TRUE
    [] fault = "short" -> ~(w.k = "gap" /\ w.sh.o = <<>>) /\ w.k # "num"
    [] fault = "sep" -> w.k \in {"arr", "obj", "objz", "objd"} [] fault = "ctl" -> w.k \in {"str", "key"}
    [] fault = "two" -> TRUE

TokAt(t, i, n) == [v |-> Text(t[1], i, Bare), dp |-> t[2], ix |-> IF t[3] = -1 THEN i - 1 ELSE IF t[3] = -2 THEN n ELSE t[3], key |-> t[4]]
ToksAt(ts, i, n) == [j \in 1..Len(ts) |-> TokAt(ts[j], i, n)]
WideToks(w, n) ==
  ToksAt(w.sh.ot, 0, n)
  \o Flat([i \in 1..n |-> (IF i > 1 THEN ToksAt(w.sh.st, i - 1, n) ELSE <<>>) \o ToksAt(w.sh.it, i, n)])
  \o ToksAt(w.sh.ct, n, n)

-----------------------------------------------------------------------------
(* The pattern is right for small n.                                       *)
Cfg0 == [html |-> TRUE, sort |-> TRUE, trust |-> FALSE, pre |-> <<>>, in |-> <<>>]
Enc(v, html) == Texts(Emit(v, [Cfg0 EXCEPT !.html = html], FALSE))
Quoted_(b) == <<QUOTE>> \o b \o <<QUOTE>>
RightW(w, n, fault) ==
  LET b == TLCEval(TextOf(w, n, Given, fault)) IN
  /\ ValidDoc(b) = IsDoc(w, fault)
  /\ fault = "none" =>
       /\ TextOf(w, n, Bare, fault) = CompactOf(b)
       /\ ~(w.k = "gap" /\ w.sh.c[Len(w.sh.c)] = RBRACK /\ Len(w.sh.c) = 1) =>
            \A lay \in Layouts : TextOf(w, n, lay, fault) = IndentOf(b, lay.pre, lay.in)
       /\ w.k \in {"arr", "obj", "objz", "objd"} =>
            LET x == Tokenize(b).want IN
            WideToks(w, n) = [i \in 1..Len(x) |-> [v |-> Sub(b, x[i].i, x[i].j), dp |-> x[i].dp, ix |-> x[i].ix, key |-> x[i].key]]
       /\ w.k = "str" =>
            LET u == w.u[1]  d == Lots(u.d, n) IN
            /\ Unquote(b) = d
            /\ Enc([t |-> "str", b |-> d], TRUE) = Quoted_(Lots(u.h, n))
            /\ Enc([t |-> "str", b |-> d], FALSE) = Quoted_(Lots(u.p, n))
            /\ Enc([t |-> "raw", b |-> b], TRUE) = Quoted_(Lots(u.r, n))
            /\ RawLit(b, TRUE) = Quoted_(Lots(u.r, n))
            /\ u.t = <<81, 85, 74, 68>> => Enc([t |-> "bytes", b |-> Lots(<<65, 66, 67>>, n)], TRUE) = b
\* Counters sort like numbers.
Rising == \A i \in {0, 1, 8, 9, 10, 98, 99, 999, 9999, 99999, 999998} : BytesLess(Ctr(i), Ctr(i + 1))

-----------------------------------------------------------------------------
VARIABLES W, n, fault, small
Case == [k |-> W.k, o |-> W.sh.o, i |-> W.sh.i, s |-> W.sh.s, c |-> W.sh.c, ot |-> W.sh.ot, it |-> W.sh.it, st |-> W.sh.st, ct |-> W.sh.ct,
         u |-> W.u, n |-> n, fault |-> fault, doc |-> IsDoc(W, fault)]
Init == /\ W \in Docs /\ fault \in Faults /\ small \in BOOLEAN
        /\ n \in IF small THEN 1..SmallTo ELSE Sizes
        /\ Applies(W, n, fault)
        /\ CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.CASES)
Next == FALSE /\ UNCHANGED <<W, n, fault, small>>
SmallRight == small => RightW(W, n, fault)
AllRising == Rising
=============================================================================
