--------------------------- MODULE CheckCodegen ---------------------------
(* Code generation from syntax trees.  A case is a source text (s, c), and   *)
(* the text (o, oc) the code generator produced for its parsed tree.  The    *)
(* generated text must denote, by the grammar, the tree of the source, up    *)
(* to the grouping of declarations into lists (a declaration of several      *)
(* names is written as several declarations).                                *)
EXTENDS VGrammar, VLex, Json, Integers
Data == JsonDeserialize("data.json")
Cases == Data.cases
VARIABLES c, v

RECURSIVE Norm(_), Splice(_, _)
Splice(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE (IF s[i].k = "Decl" THEN Splice(s[i].c, 1) ELSE <<Norm(s[i])>>) \o Splice(s, i + 1)
(* a generate branch or loop body may omit the begin / end of a single item *)
AsBlock(d) == IF d.k = "Decl" THEN Node("Block", "", <<d>>, d.l) ELSE d
Blocks(n) == IF n.k \in {"IfStatement", "ForStatement"}
             THEN [n EXCEPT !.c = [i \in 1..Len(n.c) |-> AsBlock(n.c[i])]] ELSE n
Norm(n) == [n EXCEPT !.c = Splice(Blocks(n).c, 1)]

TreeOf(s, codes) ==
  LET x == Lex(s, codes)
      T == Padded(x.toks, x.l) IN
  IF x.ok THEN [r |-> ParseSource(T), T |-> T] ELSE [r |-> Fail(1), T |-> <<[l |-> x.l, v |-> "(bad character)"]>>]

Verdict(k) ==
  LET a == TreeOf(k.s, k.c) IN
  IF ~a.r.ok THEN "ok"  (* not a source of the language *)
  ELSE IF k.err # "" THEN "no code generated: " \o k.err
  ELSE LET b == TreeOf(k.o, k.oc) IN
  IF ~b.r.ok THEN "generated code is not valid: line " \o ToString(b.T[b.r.i].l) \o " at '" \o b.T[b.r.i].v \o "'"
  ELSE LET d == Diff(Norm(a.r.n), Norm(b.r.n), "") IN
  IF d = "" THEN "ok" ELSE "generated code denotes another program: " \o d

Init == c \in 1..Len(Cases) /\ v = "todo"
Next == v = "todo" /\ v' = Verdict(Cases[c]) /\ UNCHANGED c
        /\ PrintT("@" \o Cases[c].id \o "|" \o v')
Spec == Init /\ [][Next]_<<c, v>>
===========================================================================
