----------------------------- MODULE CheckLex -----------------------------
(* Conformance of the real tokenizer on groups of texts.  A group is a      *)
(* sequence of [s, c, ok, toks, dirs, at]: text, its codes, and the tokens / *)
(* directives the real lexer produced (and where it reported an error).      *)
EXTENDS VLex, Json, Integers
Data == JsonDeserialize("data.json")
Cases == Data.cases
VARIABLES c, v

SameToks(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].t = b[i][1] /\ a[i].v = b[i][2] /\ a[i].l = b[i][3]
SameDirs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].l = b[i][1] /\ a[i].v = b[i][2]
One(x) ==
  LET e == Lex(x.s, x.c) IN
  IF e.ok # x.ok THEN (IF e.ok THEN "rejected" ELSE "accepted, although no token starts at line " \o ToString(e.l))
  ELSE IF ~SameToks(e.toks, x.toks) THEN "tokens differ, expected " \o ToString([i \in DOMAIN e.toks |-> <<e.toks[i].t, e.toks[i].v, e.toks[i].l>>])
  ELSE IF ~SameDirs(e.dirs, x.dirs) THEN "directives differ, expected " \o ToString(e.dirs)
  ELSE IF ~e.ok /\ e.l # x.at THEN "error reported on line " \o ToString(x.at) \o " instead of " \o ToString(e.l)
  ELSE "ok"
Verdict(k) ==
  LET bad == {i \in DOMAIN k.texts : One(k.texts[i]) # "ok"} IN
  IF bad = {} THEN "ok"
  ELSE LET i == CHOOSE j \in bad : \A m \in bad : j <= m IN
       "text " \o ToString(k.texts[i].c) \o ": " \o One(k.texts[i])

Init == c \in 1..Len(Cases) /\ v = "todo"
Next == v = "todo" /\ v' = Verdict(Cases[c]) /\ UNCHANGED c
        /\ PrintT("@" \o Cases[c].id \o "|" \o v')
Spec == Init /\ [][Next]_<<c, v>>
===========================================================================
