------------------------------ MODULE EnumEnc -------------------------------
(***************************************************************************)
(* Every value of every type of Universe under every setting, with its     *)
(* encoding; the harness builds each value and encodes it (C01 - C05, C08, *)
(* C17).                                                                   *)
(***************************************************************************)
EXTENDS Universe, Json, CSV, IOUtils
CONSTANTS TypeSet,       \* which types
          Flags,         \* set of <<html, sort>>
          Layouts,       \* set of <<prefix, indent>>
          Colours        \* set of colour names: "off" "full" "part"

Deep == UNION {{Ptr(e), Slice(e), Map_(Str, e), Arr(1, e), St(<<Fld(N_A, G_omit, e)>>)} : e \in Two \cup StEmb}
EncTypes == CASE TypeSet = "all" -> Scalars \cup One \cup Two \cup StOne \cup StTwo \cup StEmb \cup StEmb2
              [] TypeSet = "small" -> Scalars \cup One \cup Two \cup StOne
              [] TypeSet = "deep" -> Deep
              [] TypeSet = "structs" -> StTwo \cup StEmb \cup StEmb2
C_(n) == <<ESC, LBRACK, 57, n, 109>>
Full == [on |-> TRUE, null |-> C_(48), bool |-> C_(49), num |-> C_(50), str |-> C_(51), key |-> C_(52), bytes |-> C_(53),
         time |-> C_(54), text |-> C_(55), punc |-> C_(56), brk |-> C_(57), brc |-> C_(65), com |-> C_(66), col |-> C_(67)]
Part == [Full EXCEPT !.null = <<>>, !.key = <<>>, !.brk = <<>>, !.com = <<>>, !.col = <<>>]
ColOf(n) == CASE n = "full" -> Full [] n = "part" -> Part [] OTHER -> NoColors

\* For the configurations.
AllFlags == {<<h, s>> : h, s \in BOOLEAN}
OneFlag == {<<TRUE, TRUE>>}
NoLay == {<<<<>>, <<>>>>}
Lays == {<<<<>>, <<SP, SP>>>>, <<<<62>>, <<>>>>, <<<<62, SP>>, <<TAB>>>>}
AllLays == NoLay \cup Lays

VARIABLES ty, w, stage
Init == ty \in EncTypes /\ w = <<>> /\ stage = 0
Cfg(f, l) == [html |-> f[1], sort |-> f[2], trust |-> FALSE, pre |-> l[1], in |-> l[2]]
\* Members of unsorted maps with several entries can come in any order.
RECURSIVE Loose(_)
Loose(x) == CASE x.t = "map" -> Len(x.m) > 1 \/ \E i \in 1..Len(x.m) : Loose(x.m[i].v)
              [] x.t \in {"ptr", "if"} -> Loose(x.v)
              [] x.t = "arr" -> \E i \in 1..Len(x.a) : Loose(x.a[i])
              [] x.t = "st" -> \E i \in 1..Len(x.fs) : Loose(x.fs[i])
              [] OTHER -> FALSE
Back(x) == LET n == TLCEval(Norm(ty, w)) IN IF x THEN <<n>> ELSE <<>>
Out(f, l, c) ==
  LET cfg == Cfg(f, l)
      x == TLCEval(Expect(Gv(ty, w), cfg, ColOf(c), <<>>))
  IN  CSVWrite("%1$s", <<ToJson([ty |-> ty, w |-> w, cfg |-> cfg, col |-> c, ok |-> x.ok, b |-> x.b,
                                 norm |-> Back(x.ok /\ c = "off")])>>, IOEnv.CASES)
Next == \/ stage = 0 /\ w' \in Vals(ty) /\ stage' = 1 /\ ty' = ty
        \/ /\ stage = 1 /\ stage' = 2 /\ UNCHANGED <<ty, w>>
           /\ \A f \in Flags, l \in Layouts, c \in Colours : (f[2] \/ ~Loose(w)) => Out(f, l, c)
=============================================================================
