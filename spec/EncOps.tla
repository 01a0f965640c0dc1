------------------------------- MODULE EncOps -------------------------------
(***************************************************************************)
(* The recorded steps of the encoding side (C01 - C08), and whether the    *)
(* specification allows them.                                              *)
(***************************************************************************)
EXTENDS Encode, Verdict

-----------------------------------------------------------------------------
(* Single encodings.                                                       *)
EncOk(e) ==
  LET x == Expect(e.v, e.cfg, e.col, e.out) IN
  /\ ~e.pn
  /\ IF x.ok THEN ~e.err /\ e.out = x.b ELSE e.err /\ e.out = <<>>

\* C01: colours only add escape sequences.
StripOk(e) ==
  /\ ~e.pn
  /\ e.one = e.offe
  /\ ~e.one => /\ Strip(e.on) = e.off
               /\ e.ws => ValidDoc(e.off)

\* C03: the indented output is the layout of the compact one.
LayOk(e) ==
  /\ ~e.pn
  /\ e.ce = e.ie
  /\ ~e.ce => LET ts == TokensOf(e.c) IN
              /\ ValidDoc(e.c)
              /\ e.c = Render(ts, NoIndent, NoColors)
              /\ (IF e.col THEN Strip(e.i) ELSE e.i) = Render(ts, Indent(e.pre, e.in), NoColors)

\* C08: entry points agree; append keeps the destination.
EntryOk(e) ==
  /\ ~e.pn
  /\ e.ene = e.me /\ e.ape = e.me /\ e.mie = e.me /\ e.fulle = e.me /\ e.de = e.me
  /\ ~e.me => /\ e.en = e.m
              /\ e.ap = e.m
              /\ e.mi = Render(TokensOf(e.m), [on |-> TRUE, pre |-> e.pre, in |-> e.in], NoColors)
              /\ e.dout = e.dst \o e.full
  /\ e.dsta = e.dst
  /\ ~e.changed

-----------------------------------------------------------------------------
(* Encoder sessions (C07): the state of an encoder is its settings and     *)
(* whether its writer has failed.  own: a marshaler of the caller panicked *)
(* (its own value reached the caller again), pn: any other panic.          *)
NewEncoder == [cfg |-> [html |-> TRUE, sort |-> TRUE, trust |-> FALSE, pre |-> <<>>, in |-> <<>>],
               col |-> NoColors, dead |-> FALSE]
SetOpt(c, what, on) ==
  CASE what = "html" -> [c EXCEPT !.html = on]
    [] what = "sort" -> [c EXCEPT !.sort = on]
    [] OTHER -> [c EXCEPT !.trust = on]
NoLF(ws) == IF ws = <<>> \/ ws[1] = <<>> THEN <<>> ELSE Sub(ws[1], 1, Len(ws[1]) - 1)
EncodeStep(s, o) ==
  LET e == s[o.e] IN
  IF o.pn THEN Bad(s)
  ELSE IF o.own /\ e.dead THEN Bad(s)
  ELSE IF e.dead THEN If(o.err /\ o.werr /\ o.writes = <<>>, s)
  ELSE
    LET x == Expect(o.v, e.cfg, e.col, NoLF(o.writes)) IN
    IF ~x.ok THEN If((o.err \/ o.own) /\ ~o.werr /\ o.writes = <<>>, s)
    ELSE IF o.own THEN Bad(s)
    ELSE IF o.fails THEN If(o.err /\ o.werr /\ o.writes = <<<<>>>>, [s EXCEPT ![o.e].dead = TRUE])
    ELSE If(~o.err /\ o.writes = <<x.b \o <<LF>>>>, s)

EncKinds == {"enc", "strip", "lay", "entry", "new", "set", "indent", "colors", "encode"}
EncStep(s, o) ==
  CASE o.k = "enc" -> If(EncOk(o), s)
    [] o.k = "strip" -> If(StripOk(o), s)
    [] o.k = "lay" -> If(LayOk(o), s)
    [] o.k = "entry" -> If(EntryOk(o), s)
    [] o.k = "new" -> Ok([i \in 1..o.n |-> NewEncoder])
    [] o.k = "set" -> Ok([s EXCEPT ![o.e].cfg = SetOpt(@, o.what, o.on)])
    [] o.k = "indent" -> Ok([s EXCEPT ![o.e].cfg.pre = o.pre, ![o.e].cfg.in = o.in])
    [] o.k = "colors" -> Ok([s EXCEPT ![o.e].col = o.col])
    [] o.k = "encode" -> EncodeStep(s, o)
=============================================================================
