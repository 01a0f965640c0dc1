----------------------------- MODULE CodecCache -----------------------------
(***************************************************************************)
(* First uses of types (C18), at the level of the design: a shared pointer *)
(* to a map from types to codecs.  A call reads the pointer, looks its     *)
(* type up, and on a miss builds the codec, copies the map entry by entry  *)
(* into a new one, and publishes that.  Updates may be lost; a wrong or a  *)
(* half-built codec must never be used, and a published map never written. *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Callers, Types, Uses, InPlace    \* InPlace: the faulty design that updates the shared map

VARIABLES ptr, heap, pc, ty, snap, new, todo, used, left
vars == <<ptr, heap, pc, ty, snap, new, todo, used, left>>

Codec(t) == <<"codec", t>>
Empty == [t \in Types |-> <<>>]
Maps == 0..(Cardinality(Callers) * Uses)

Init == /\ ptr = 0 /\ heap = [m \in Maps |-> Empty]
        /\ pc = [c \in Callers |-> "idle"] /\ ty = [c \in Callers |-> CHOOSE t \in Types : TRUE]
        /\ snap = [c \in Callers |-> 0] /\ new = [c \in Callers |-> 0] /\ todo = [c \in Callers |-> {}]
        /\ used = [c \in Callers |-> {}] /\ left = [c \in Callers |-> Uses]

Free == CHOOSE m \in Maps \ {0} : \A c \in Callers : m # new[c] /\ m # snap[c] /\ m # ptr
HasFree == \E m \in Maps \ {0} : \A c \in Callers : m # new[c] /\ m # snap[c] /\ m # ptr
Begin(c) == /\ pc[c] = "idle" /\ left[c] > 0
            /\ \E t \in Types : ty' = [ty EXCEPT ![c] = t]
            /\ snap' = [snap EXCEPT ![c] = ptr]
            /\ pc' = [pc EXCEPT ![c] = "lookup"]
            /\ left' = [left EXCEPT ![c] = @ - 1]
            /\ UNCHANGED <<ptr, heap, new, todo, used>>
Hit(c) == /\ pc[c] = "lookup" /\ heap[snap[c]][ty[c]] # <<>>
          /\ used' = [used EXCEPT ![c] = @ \cup {<<ty[c], heap[snap[c]][ty[c]]>>}]
          /\ pc' = [pc EXCEPT ![c] = "idle"]
          /\ UNCHANGED <<ptr, heap, ty, snap, new, todo, left>>
Miss(c) == /\ pc[c] = "lookup" /\ heap[snap[c]][ty[c]] = <<>>
           /\ IF InPlace
              THEN /\ heap' = [heap EXCEPT ![snap[c]][ty[c]] = Codec(ty[c])]
                   /\ pc' = [pc EXCEPT ![c] = "use"] /\ UNCHANGED <<new, todo>>
              ELSE /\ HasFree
                   /\ new' = [new EXCEPT ![c] = Free]
                   /\ heap' = [heap EXCEPT ![Free] = [Empty EXCEPT ![ty[c]] = Codec(ty[c])]]
                   /\ todo' = [todo EXCEPT ![c] = Types \ {ty[c]}]
                   /\ pc' = [pc EXCEPT ![c] = "copy"]
           /\ UNCHANGED <<ptr, ty, snap, used, left>>
Copy(c) == /\ pc[c] = "copy" /\ todo[c] # {}
           /\ \E t \in todo[c] :
                /\ heap' = [heap EXCEPT ![new[c]][t] = heap[snap[c]][t]]
                /\ todo' = [todo EXCEPT ![c] = @ \ {t}]
           /\ UNCHANGED <<ptr, pc, ty, snap, new, used, left>>
Publish(c) == /\ pc[c] = "copy" /\ todo[c] = {}
              /\ ptr' = new[c]
              /\ pc' = [pc EXCEPT ![c] = "use"]
              /\ UNCHANGED <<heap, ty, snap, new, todo, used, left>>
Use(c) == /\ pc[c] = "use"
          /\ used' = [used EXCEPT ![c] = @ \cup {<<ty[c], Codec(ty[c])>>}]
          /\ new' = [new EXCEPT ![c] = 0] /\ snap' = [snap EXCEPT ![c] = 0]
          /\ pc' = [pc EXCEPT ![c] = "idle"]
          /\ UNCHANGED <<ptr, heap, ty, todo, left>>
Next == \E c \in Callers : Begin(c) \/ Hit(c) \/ Miss(c) \/ Copy(c) \/ Publish(c) \/ Use(c)
Spec == Init /\ [][Next]_vars

RightCodec == \A c \in Callers : \A u \in used[c] : u[2] = Codec(u[1])
\* The published map is never written.
NeverWritten == [][heap'[ptr] = heap[ptr]]_vars
=============================================================================
