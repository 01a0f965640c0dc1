------------------------------ MODULE EnumSess ------------------------------
(***************************************************************************)
(* Every short history of encoders: setting changes, encodes that succeed, *)
(* encodes that fail somewhere inside, a writer that fails at its n-th     *)
(* call; with what each encode has to write and return (C07).  The state   *)
(* of an encoder is its settings and whether its writer has failed, and    *)
(* nothing else.                                                           *)
(***************************************************************************)
EXTENDS Universe, Json, CSV, IOUtils
CONSTANTS N,            \* encoders
          L,            \* steps
          Sets,         \* setting changes, see Change
          Vals_,        \* values, see Val
          Fails         \* set of n: the first encoder's writer fails at call n (0: never)

Raw_ == [t |-> "raw", b |-> <<91, 49, 44, 32, 34, 60, 34, 93>>]                  \* [1, "<"]
Flt_ == [t |-> "flt", neg |-> FALSE, d |-> <<49, 53>>, e |-> 0]
BadNum == [t |-> "num", b |-> <<48, 49>>]
Boom_ == [t |-> "mjpan", z |-> FALSE]           \* its marshaler panics
If_(v) == [t |-> "if", v |-> v]
Arr_(vs) == [t |-> "arr", sl |-> TRUE, a |-> TLCEval([i \in 1..Len(vs) |-> If_(vs[i])])]
Pair(k, v) == [k |-> k, e |-> FALSE, v |-> If_(v)]
MapOf(ps) == [t |-> "map", m |-> ps]
K_b == <<98>>
Val(n) ==
  CASE n = "all" -> MapOf(<<Pair(K_lt, Arr_(<<Flt_, Raw_>>)), Pair(K_b, W_s(<<38>>))>>)
    [] n = "str" -> W_s(<<60>>)
    [] n = "empty" -> Arr_(<<MapOf(<<>>), Arr_(<<>>)>>)
    [] n = "failmap" -> MapOf(<<Pair(K_a, Arr_(<<Flt_>>)), Pair(K_b, MapOf(<<Pair(K_a, BadNum)>>)), Pair(K_lt, Flt_)>>)
    [] n = "boommap" -> MapOf(<<Pair(K_a, Arr_(<<Flt_>>)), Pair(K_b, MapOf(<<Pair(K_a, Boom_)>>)), Pair(K_lt, Flt_)>>)
    [] n = "failarr" -> Arr_(<<Flt_, Arr_(<<MapOf(<<>>), BadNum>>)>>)
\* The same with the members the other way round.
Other(n) == IF n = "all" THEN [Val(n) EXCEPT !.m = <<@[2], @[1]>>] ELSE Val(n)

C_(n) == <<ESC, LBRACK, 57, n, 109>>
Cols(on) == IF ~on THEN NoColors ELSE
        [on |-> TRUE, null |-> C_(48), bool |-> C_(49), num |-> C_(50), str |-> C_(51), key |-> C_(52), bytes |-> C_(53),
         time |-> C_(54), text |-> C_(55), punc |-> C_(56), brk |-> C_(57), brc |-> C_(65), com |-> C_(66), col |-> C_(67)]

New == [html |-> TRUE, sort |-> TRUE, trust |-> FALSE, pre |-> <<>>, in |-> <<>>, col |-> FALSE, calls |-> 0, dead |-> FALSE]
Change(s, x) ==
  CASE x = "html" -> [s EXCEPT !.html = TRUE]   [] x = "nohtml" -> [s EXCEPT !.html = FALSE]
    [] x = "sort" -> [s EXCEPT !.sort = TRUE]   [] x = "nosort" -> [s EXCEPT !.sort = FALSE]
    [] x = "trust" -> [s EXCEPT !.trust = TRUE] [] x = "notrust" -> [s EXCEPT !.trust = FALSE]
    [] x = "flat" -> [s EXCEPT !.pre = <<>>, !.in = <<>>]
    [] x = "indent" -> [s EXCEPT !.pre = <<>>, !.in = <<SP, SP>>]
    [] x = "prefix" -> [s EXCEPT !.pre = <<62>>, !.in = <<>>]
    [] x = "color" -> [s EXCEPT !.col = TRUE]   [] x = "nocolor" -> [s EXCEPT !.col = FALSE]

\* What an encode may write: one of these.
Encs(n, s) ==
  LET c == [html |-> s.html, sort |-> TRUE, trust |-> s.trust, pre |-> s.pre, in |-> s.in]
      x == TLCEval(Expect(Val(n), c, Cols(s.col), <<>>))
      u == [c EXCEPT !.sort = FALSE]
      r(v) == Render(TLCEval(Emit(v, u, FALSE)), IndOf(u), Cols(s.col)) \o <<LF>>
  IN  IF ~x.ok THEN {}
      ELSE IF s.sort THEN {x.b \o <<LF>>} ELSE {r(Val(n)), r(Other(n))}
Settings == [html : BOOLEAN, sort : BOOLEAN, trust : BOOLEAN, lay : {<<<<>>, <<>>>>, <<<<>>, <<SP, SP>>>>, <<<<62>>, <<>>>>}, col : BOOLEAN]
Key(s) == [html |-> s.html, sort |-> s.sort, trust |-> s.trust, lay |-> <<s.pre, s.in>>, col |-> s.col]
Table == TLCEval([n \in Vals_ |-> TLCEval([k \in Settings |->
           TLCEval(Encs(n, [html |-> k.html, sort |-> k.sort, trust |-> k.trust, pre |-> k.lay[1], in |-> k.lay[2], col |-> k.col]))])])

VARIABLES enc, hist, fail
vars == <<enc, hist, fail>>
Init == enc = [i \in 1..N |-> New] /\ hist = <<>> /\ fail \in Fails
Set(i, x) == /\ enc' = [enc EXCEPT ![i] = Change(@, x)]
             /\ hist' = Append(hist, [e |-> i, x |-> x, v |-> "", res |-> "", outs |-> <<>>])
\* res: ok | bad (the value) | dead (the writer's error)
Encode(i, n) ==
  LET s == enc[i]
      outs == Table[n][Key(s)]
      res == IF s.dead THEN "dead" ELSE IF outs = {} THEN "bad"
             ELSE IF i = 1 /\ s.calls + 1 = fail THEN "fails" ELSE "ok"
  IN  /\ enc' = [enc EXCEPT ![i].calls = IF res \in {"ok", "fails"} THEN @ + 1 ELSE @, ![i].dead = @ \/ res = "fails"]
      /\ hist' = Append(hist, [e |-> i, x |-> "", v |-> n, res |-> res, outs |-> IF res = "ok" THEN SetToSeq(outs) ELSE <<>>])
Next == /\ Len(hist) < L
        /\ fail' = fail
        /\ \E i \in 1..N : \/ Len(hist) < L - 1 /\ \E x \in Sets : Set(i, x)
                           \/ \E n \in Vals_ : Encode(i, n)
        /\ Len(hist) = L - 1 => CSVWrite("%1$s", <<ToJson([n |-> N, fail |-> fail, ops |-> hist'])>>, IOEnv.CASES)
View == <<hist, fail>>

\* What is written depends on the settings and the value alone, and a dead
\* encoder stays dead.
Sane == \A i, j \in 1..Len(hist) :
          /\ i < j /\ hist[i].e = hist[j].e /\ hist[i].res \in {"fails", "dead"} /\ hist[j].v # "" => hist[j].res = "dead"
          /\ hist[i].res = "fails" => \A k \in 1..Len(hist) : k # i => hist[k].res # "fails"
=============================================================================
