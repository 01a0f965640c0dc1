----------------------------- MODULE EnumColors -----------------------------
(* Conversions of single colours: all pairs of attributes and all states of  *)
(* the switches.                                                             *)
EXTENDS Adapter, Json, CSV, IOUtils
Attributes == (0..9) \cup (21..29) \cup (30..38) \cup (40..48) \cup (90..97) \cup (100..107)
Lists == {<<>>} \cup {<<a>> : a \in Attributes \cup {200, 255}} \cup {<<a, b>> : a, b \in Attributes}
         \cup {<<38, 5, a>> : a \in {0, 9, 10, 99, 100, 255}} \cup {<<c, 2, a, b, 7>> : c \in {38, 48}, a, b \in {0, 32, 255}}
VARIABLES as, glob, own, done
Init == as \in Lists /\ glob \in BOOLEAN /\ own \in {"none", "on", "off"} /\ done = FALSE
EnumNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<as, glob, own>>
            /\ CSVWrite("%1$s", <<ToJson([as |-> as, glob |-> glob, own |-> own, want |-> Sgr(as)])>>, IOEnv.CASES)
=============================================================================
