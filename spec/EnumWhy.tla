------------------------------ MODULE EnumWhy -------------------------------
(***************************************************************************)
(* Every document of Universe decoded into a variable of every type, with  *)
(* what the error may say (C23).                                           *)
(***************************************************************************)
EXTENDS EnumDec, Causes

Says(i) == [b |-> Table[i].b, why |-> SetToSeq(DecWhy(ty, Table[i].d, w, [c EXCEPT !.b = Table[i].b]))]
LineWhy(q) == ToJson([ty |-> ty, w |-> w, num |-> c.num, dis |-> c.dis, ci |-> c.ci,
                      docs |-> TLCEval([i \in 1..Len(q) |-> Says(q[i])])])
OutWhy == LET q == TLCEval(SetToSeq(Todo)) IN
          \A k \in 0..((Len(q) - 1) \div N_) : Write(LineWhy(Sub(q, k * N_ + 1, Min2(Len(q), k * N_ + N_))))
NextWhy == \/ stage = 0 /\ ~Quoting(ty) /\ stage' = 1 /\ ty' = ty
              /\ w' \in {TLCEval(Zero(ty)), TLCEval(Used(ty))} /\ c' \in Opts(ty)
           \/ stage = 1 /\ stage' = 2 /\ UNCHANGED <<ty, w, c>> /\ OutWhy
=============================================================================
