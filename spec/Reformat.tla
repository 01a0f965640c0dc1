------------------------------ MODULE Reformat ------------------------------
(***************************************************************************)
(* The text utilities (C22): Compact, Indent and HTMLEscape append to a    *)
(* buffer.  The state is what the buffer holds.                            *)
(***************************************************************************)
EXTENDS Doc, Verdict

\* The white space at the end of b.
Trailing(b) ==
  LET n == FoldLeft(LAMBDA a, c : IF IsSpace(c) THEN a + 1 ELSE 0, 0, b)
  IN  Sub(b, Len(b) - n + 1, Len(b))
CompactOf(b) == Render(TokensOf(b), NoIndent, NoColors)
IndentOf(b, pre, in) == Render(TokensOf(b), [on |-> TRUE, pre |-> pre, in |-> in], NoColors) \o Trailing(b)

HtmlOf(b) == RawLit(b, TRUE)

\* s = <<contents of the buffer>>
ReformatStep(s, o) ==
  LET add == CASE o.k = "compact" -> CompactOf(o.b)
               [] o.k = "layout" -> IndentOf(o.b, o.pre, o.in)
               [] o.k = "html" -> HtmlOf(o.b)
               [] OTHER -> <<>>
  IN
  CASE o.k = "buffer" -> Ok(<<o.b>>)
    [] o.k = "drain" -> If(o.now = From(s[1], o.n + 1), <<o.now>>)       \* a reader took n bytes
    [] o.pn \/ ~o.same -> Bad(s)
    [] o.k # "html" /\ ~ValidDoc(o.b) -> If(o.err /\ o.now = s[1], s)
    [] OTHER -> If(~o.err /\ o.now = s[1] \o add, <<o.now>>)
=============================================================================
