------------------------------ MODULE Terminal ------------------------------
(* When colour is available (C19).  The environment and the writer are the   *)
(* whole state the answer may depend on; they change between the questions,  *)
(* and asking changes nothing.                                                *)
EXTENDS Naturals, FiniteSets

Unset == "(unset)"
NoColorVals == {Unset, "", "0", "1", "false", " "}
ForceVals   == {Unset, "", "0", "1", "false", "3"}
TermVals    == {Unset, "", "dumb", "xterm", "DUMB", "dumb2", " dumb"}

\* The writers, and what is behind each.
Files     == {"tty", "regular", "pipe", "pipewr", "null", "dir", "socket"}
NonFiles  == {"nil", "buffer", "nilbuffer", "wrapper", "fdwriter", "embeds", "discard", "multi"}
OddFiles  == {"nilfile"}                  \* a nil *os.File
Writers   == [w : Files, closed : BOOLEAN] \cup [w : NonFiles \cup OddFiles, closed : {FALSE}]

Set(v) == v # Unset /\ v # ""
IsTerminal(x) == x.w = "tty" /\ ~x.closed
Colour(no, force, term, x) ==
  IF Set(no) THEN FALSE
  ELSE IF Set(force) THEN TRUE
  ELSE IF term = "dumb" THEN FALSE
  ELSE IsTerminal(x)

VARIABLES no, force, term, wr, asked
vars == <<no, force, term, wr, asked>>
Init == /\ no \in NoColorVals /\ force \in ForceVals /\ term \in TermVals
        /\ wr \in Writers /\ asked = "not yet"
Answer == IF Colour(no, force, term, wr) THEN "yes" ELSE "no"
Ask      == asked' = Answer /\ UNCHANGED <<no, force, term, wr>>
SetNo    == no' \in NoColorVals /\ asked' = "not yet" /\ UNCHANGED <<force, term, wr>>
SetForce == force' \in ForceVals /\ asked' = "not yet" /\ UNCHANGED <<no, term, wr>>
SetTerm  == term' \in TermVals /\ asked' = "not yet" /\ UNCHANGED <<no, force, wr>>
Close    == /\ wr.w \in Files /\ ~wr.closed
            /\ wr' = [wr EXCEPT !.closed = TRUE] /\ asked' = "not yet" /\ UNCHANGED <<no, force, term>>
Other    == wr' \in Writers /\ asked' = "not yet" /\ UNCHANGED <<no, force, term>>
Next == Ask \/ SetNo \/ SetForce \/ SetTerm \/ Close \/ Other
Spec == Init /\ [][Next]_vars

\* The property's own words.
NeverWhenNoColor == asked = "yes" => ~Set(no)
OnlyTerminals    == asked = "yes" /\ ~Set(force) => wr.w = "tty" /\ ~wr.closed /\ term # "dumb"
ForcedWhenAsked  == asked = "no" /\ Set(force) => Set(no)
Available        == asked = "no" /\ IsTerminal(wr) => Set(no) \/ (~Set(force) /\ term = "dumb")
ClosingEnds      == [][asked = "yes" /\ wr'.closed /\ ~wr.closed => asked' # "yes"]_vars
=============================================================================
