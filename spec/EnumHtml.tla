------------------------------ MODULE EnumHtml ------------------------------
(* All byte strings up to length Longest over the bytes that matter to           *)
(* HTMLEscape, with what it makes of them.                                   *)
EXTENDS Reformat, Json, CSV, IOUtils
CONSTANTS Longest
Alphabet == {60, 62, 38, 226, 128, 168, 169, 34, 120}
VARIABLES w
Output(b) == CSVWrite("%1$s", <<ToJson([b |-> b, out |-> HtmlOf(b)])>>, IOEnv.CASES)
Init == w = <<>>
Next == Len(w) < Longest /\ \E c \in Alphabet : w' = Append(w, c) /\ Output(w')
=============================================================================
