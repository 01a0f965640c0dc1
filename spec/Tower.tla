------------------------------- MODULE Tower --------------------------------
(***************************************************************************)
(* Documents nested to any depth, given by a few numbers: one letter per   *)
(* level, taken in turn from a word, around a core.                        *)
(*                                                                         *)
(*   a  [ . ]     o  {"k": . }     s  [0, . ]     t  [ . ,0]               *)
(*   m  {"a":1,"k": . }                                                    *)
(*                                                                         *)
(* What has to be observed on such a document (whether it is one, its      *)
(* value, its tokens, its layout) follows a pattern along the levels.  The *)
(* pattern is checked here against the general definitions for all small   *)
(* towers, and the harness then holds the real code to it for towers of    *)
(* thousands of levels (the depth limit of decoding is one of them).       *)
(***************************************************************************)
EXTENDS Encode, Tokens, Reformat, Json, CSV, IOUtils
CONSTANTS SmallTo,     \* towers up to this height are checked in full
          Heights,     \* heights for every word and core
          Tall,        \* heights for the words of TallWords
          TallWords, Words,
          Huge         \* a height at which unlimited recursion ends the process

MaxDepth == 10000      \* decoding refuses deeper documents, as encoding/json does

\* In opening and closing texts: 1 is a line break at the child's level, 2 one
\* at the own level, 3 the space after a colon (layout only).
Key(c) == <<QUOTE, c, QUOTE, COLON, 3>>
Opening(l) ==
  CASE l = "a" -> <<LBRACK, 1>> [] l = "o" -> <<LBRACE, 1>> \o Key(107)
    [] l = "s" -> <<LBRACK, 1, 48, COMMA, 1>> [] l = "t" -> <<LBRACK, 1>>
    [] l = "m" -> <<LBRACE, 1>> \o Key(97) \o <<49, COMMA, 1>> \o Key(107)
Closing(l) ==
  CASE l \in {"a", "s"} -> <<2, RBRACK>> [] l \in {"o", "m"} -> <<2, RBRACE>>
    [] l = "t" -> <<COMMA, 1, 48, 2, RBRACK>>
\* Tokens: <<text, 1 if inside the level, position (-1: that of the level itself), is a key>>
LB(b) == <<<<b>>, 0, -1, FALSE>>
KeyToks(c, i) == <<<<<<QUOTE, c, QUOTE>>, 1, i, TRUE>>, <<<<COLON>>, 1, i, FALSE>>>>
OpenToks(l) ==
  CASE l \in {"a", "t"} -> <<LB(LBRACK)>> [] l = "o" -> <<LB(LBRACE)>> \o KeyToks(107, 0)
    [] l = "s" -> <<LB(LBRACK), <<<<48>>, 1, 0, FALSE>>, <<<<COMMA>>, 1, 0, FALSE>>>>
    [] l = "m" -> <<LB(LBRACE)>> \o KeyToks(97, 0) \o <<<<<<49>>, 1, 0, FALSE>>, <<<<COMMA>>, 1, 0, FALSE>>>> \o KeyToks(107, 1)
CloseToks(l) ==
  CASE l \in {"a", "s"} -> <<LB(RBRACK)>> [] l \in {"o", "m"} -> <<LB(RBRACE)>>
    [] l = "t" -> <<<<<<COMMA>>, 1, 0, FALSE>>, <<<<48>>, 1, 1, FALSE>>, LB(RBRACK)>>
Inside(l) == IF l \in {"s", "m"} THEN 1 ELSE 0        \* the position of the level's child
Cores == {<<48>>, <<QUOTE, 115, QUOTE>>, T_null, <<LBRACK, RBRACK>>, <<LBRACE, RBRACE>>}
Faults == {"none", "short", "long", "other", "nocore", "open"}

-----------------------------------------------------------------------------
(* A tower [w, n, core, fault] as a text.  lay = [on, pre, in].            *)
Letter(T, i) == T.w[(i % Len(T.w)) + 1]                   \* the letter of level i (from 0)
RECURSIVE Times(_, _)
Times(b, k) == IF k = 0 THEN <<>> ELSE b \o Times(b, k - 1)
Break(lay, k) == IF lay.on THEN <<10>> \o lay.pre \o Times(lay.in, k) ELSE <<>>
Level(b, i, lay) ==
  Flat([j \in 1..Len(b) |->
         IF b[j] = 1 THEN Break(lay, i + 1) ELSE IF b[j] = 2 THEN Break(lay, i)
         ELSE IF b[j] = 3 THEN (IF lay.on THEN <<32>> ELSE <<>>) ELSE <<b[j]>>])
Up(T, lay) == Flat([i \in 1..T.n |-> Level(Opening(Letter(T, i - 1)), i - 1, lay)])
Down(T, lay) == Flat([i \in 1..T.n |-> Level(Closing(Letter(T, T.n - i)), T.n - i, lay)])
TextOf(T, lay) ==
  LET sound == TLCEval(Up(T, lay) \o T.core \o Down(T, lay))
      last == sound[Len(sound)]
      front == SubSeq(sound, 1, Len(sound) - 1)
  IN CASE T.fault = "none" -> sound
       [] T.fault = "short" -> front
       [] T.fault = "long" -> Append(sound, last)
       [] T.fault = "other" -> Append(front, IF last = RBRACK THEN RBRACE ELSE RBRACK)
       [] T.fault = "nocore" -> Up(T, lay) \o Down(T, lay)
       [] T.fault = "open" -> Up(T, lay)
Flat0 == [on |-> FALSE, pre |-> <<>>, in |-> <<>>]
Lays == {[on |-> TRUE, pre |-> <<62>>, in |-> <<46, 9>>], [on |-> TRUE, pre |-> <<>>, in |-> <<32>>], [on |-> TRUE, pre |-> <<45>>, in |-> <<>>]}

IsDoc(T) == T.fault = "none" \/ (T.fault = "nocore" /\ Letter(T, T.n - 1) = "a")
Deep(T) == T.n + (IF T.fault = "none" /\ T.core[1] \in {LBRACK, LBRACE} THEN 1 ELSE 0)
Accepted(T) == IsDoc(T) /\ Deep(T) <= MaxDepth

\* The tokens, each [v, dp, ix, key].
Pos(T, i) == IF i = 0 THEN 0 ELSE Inside(Letter(T, i - 1))   \* the position of level i in its parent
Tok(T, i, t) == [v |-> t[1], dp |-> i + t[2], ix |-> IF t[3] = -1 THEN Pos(T, i) ELSE t[3], key |-> t[4]]
Toks(T, i, ts) == [j \in 1..Len(ts) |-> Tok(T, i, ts[j])]
CoreToks(T) ==
  LET at == [v |-> T.core, dp |-> T.n, ix |-> Pos(T, T.n), key |-> FALSE] IN
  IF T.core[1] \in {LBRACK, LBRACE} THEN <<[at EXCEPT !.v = <<T.core[1]>>], [at EXCEPT !.v = <<T.core[2]>>]>> ELSE <<at>>
TowerToks(T) ==
  Flat([i \in 1..T.n |-> Toks(T, i - 1, OpenToks(Letter(T, i - 1)))]) \o CoreToks(T)
  \o Flat([i \in 1..T.n |-> Toks(T, T.n - i, CloseToks(Letter(T, T.n - i)))])

-----------------------------------------------------------------------------
(* The pattern is right for small towers.                                  *)
RECURSIVE NestOf(_, _, _, _)
NestOf(ts, i, d, m) ==
  IF i > Len(ts) THEN m
  ELSE IF ts[i][2] \in {<<LBRACK>>, <<LBRACE>>} THEN NestOf(ts, i + 1, d + 1, IF d + 1 > m THEN d + 1 ELSE m)
  ELSE IF ts[i][2] \in {<<RBRACK>>, <<RBRACE>>} THEN NestOf(ts, i + 1, d - 1, m)
  ELSE NestOf(ts, i + 1, d, m)
Right(T) ==
  LET b == TLCEval(TextOf(T, Flat0)) IN
  /\ IsDoc(T) = ValidDoc(b)
  /\ IsDoc(T) => Deep(T) = NestOf(TokensOf(b), 1, 0, 0)
  /\ T.fault = "none" =>
       /\ \A lay \in Lays : TextOf(T, lay) = IndentOf(b, lay.pre, lay.in)
       /\ LET w == Tokenize(b).want IN
          TowerToks(T) = [i \in 1..Len(w) |-> [v |-> Sub(b, w[i].i, w[i].j), dp |-> w[i].dp, ix |-> w[i].ix, key |-> w[i].key]]

Tower == [w : Words, n : 1..SmallTo, core : Cores, fault : Faults]

-----------------------------------------------------------------------------
VARIABLES T, small
Case(t) ==
  [ls |-> [i \in 1..Len(t.w) |-> [l |-> t.w[i], o |-> Opening(t.w[i]), c |-> Closing(t.w[i]), ot |-> OpenToks(t.w[i]),
                                  ct |-> CloseToks(t.w[i]), in |-> Inside(t.w[i])]],
   n |-> t.n, core |-> t.core, fault |-> t.fault, doc |-> IsDoc(t), deep |-> Deep(t), accepted |-> Accepted(t)]
Output(t) == CSVWrite("%1$s", <<ToJson(Case(t))>>, IOEnv.CASES)

Init == /\ small \in BOOLEAN
        /\ IF small THEN T \in Tower
           ELSE \/ T \in [w : Words, n : Heights, core : Cores, fault : {"none"}]
                \/ T \in [w : Words, n : Heights, core : {<<48>>}, fault : Faults \ {"none"}]
                \/ T \in [w : TallWords, n : Tall, core : {<<48>>, T_null, <<LBRACE, RBRACE>>}, fault : {"none"}]
                \/ T \in [w : TallWords, n : Tall, core : {<<48>>}, fault : Faults \ {"none"}]
                \/ T \in [w : {<<"a">>}, n : {Huge}, core : {<<48>>}, fault : {"none", "open"}]
        /\ Output(T)
Next == FALSE /\ UNCHANGED <<T, small>>
SmallRight == small => Right(T)
=============================================================================
