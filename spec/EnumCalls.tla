----------------------------- MODULE EnumCalls ------------------------------
(* Every interleaving of the stages of N calls, with the outcome of each     *)
(* call; the harness executes exactly these interleavings (C18).             *)
EXTENDS Calls, Json, CSV, IOUtils
View == <<kind, sched>>
AllDone == \A a \in Actors : pc'[a] > Len(Stages(kind[a]))
EnumNext == /\ Next
            /\ AllDone => CSVWrite("%1$s", <<ToJson([kind |-> kind, sched |-> sched',
                                     out |-> [a \in Actors |-> Alone(a)]])>>, IOEnv.CASES)
=============================================================================
