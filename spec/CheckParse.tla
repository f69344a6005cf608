---------------------------- MODULE CheckParse ----------------------------
(* Conformance of recorded parses.  A case is a text (s, codes c), what the  *)
(* public parse returned for it (err, at, ast, dirs) and what to compare:    *)
(*   mode "tree"   the syntax tree, or rejection                             *)
(*   mode "lines"  the tree with the line of every node, and the directives  *)
(*   mode "error"  in addition to "tree": the line an error is reported on   *)
EXTENDS VGrammar, VLex, Json, Integers
Data == JsonDeserialize("data.json")
Cases == Data.cases
VARIABLES c, v

SameDirs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].l = b[i][1] /\ a[i].v = b[i][2]

Verdict(k) ==
  LET x == Lex(k.s, k.c)
      T == Padded(x.toks, x.l)
      e == IF x.ok THEN ParseSource(T) ELSE Fail(1)
      at == IF x.ok THEN (IF T[e.i].t = "EOF" THEN 0 ELSE T[e.i].l) ELSE x.l IN
  IF e.ok
  THEN IF k.err # "" THEN "valid text rejected: " \o k.err
       ELSE LET d == DiffL(e.n, k.ast, "", k.mode = "lines") IN
            IF d # "" THEN d
            ELSE IF ~SameDirs(x.dirs, k.dirs) THEN "directives: expected " \o ToString(x.dirs) \o " but got " \o ToString(k.dirs)
            ELSE "ok"
  ELSE IF k.want = "accept" THEN "MACHINERY: grammar rejects a generated text at token " \o ToString(e.i)
       ELSE IF k.err = "" THEN "invalid text accepted (spec stops at line " \o ToString(at) \o ")"
       ELSE IF k.err # "ParseError" THEN "invalid text not reported as a parse error: " \o k.err
       ELSE IF k.mode = "error" /\ x.ok /\ k.at >= 0 /\ k.at # at
       THEN "error reported on line " \o ToString(k.at) \o " instead of " \o ToString(at)
       ELSE "ok"

Init == c \in 1..Len(Cases) /\ v = "todo"
Next == v = "todo" /\ v' = Verdict(Cases[c]) /\ UNCHANGED c
        /\ PrintT("@" \o Cases[c].id \o "|" \o v')
Spec == Init /\ [][Next]_<<c, v>>
===========================================================================
