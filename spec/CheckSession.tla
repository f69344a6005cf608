--------------------------- MODULE CheckSession ---------------------------
(* Conformance of recorded sessions (histories of SessionGen).  Every step names  *)
(* what the specification says it works on:                                       *)
(*   k = "make"   nothing to observe but success                                  *)
(*   k = "parse"  the text s (codes c) after preprocessing: the observation is    *)
(*                the tree, lines and directives VLex and VGrammar give that text *)
(*   k = "lost"   preprocessing fails: an error, and no result                    *)
(*   k = "same"   any other function of a text: the observation must equal ref,   *)
(*                the one of a new process given only that text                   *)
(* No step leaves files behind, and results returned before do not change.        *)
EXTENDS VGrammar, VLex, Json, Integers
Data == JsonDeserialize("data.json")
Cases == Data.cases
Texts == Data.texts
VARIABLES c, n, v

SameDirs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].l = b[i][1] /\ a[i].v = b[i][2]
(* what parsing a text gives, for each text once *)
Model == [i \in 1..Len(Texts) |->
            LET x == Lex(Texts[i].s, Texts[i].c)
                T == Padded(x.toks, x.l)
                e == IF x.ok THEN ParseSource(T) ELSE Fail(1) IN
            [ok |-> x.ok /\ e.ok, n |-> e.n, dirs |-> x.dirs,
             at |-> IF x.ok THEN (IF T[e.i].t = "EOF" THEN 0 ELSE T[e.i].l) ELSE x.l]]
ParseV(o, m) ==
  IF m.ok
  THEN IF o.err # "" THEN "valid text rejected: " \o o.err
       ELSE LET d == DiffL(m.n, o.ast, "", TRUE) IN
            IF d # "" THEN d
            ELSE IF ~SameDirs(m.dirs, o.dirs) THEN "directives: expected " \o ToString(m.dirs) \o " but got " \o ToString(o.dirs)
            ELSE "ok"
  ELSE IF o.err = "" THEN "invalid text accepted"
       ELSE IF o.err # "ParseError" THEN "invalid text not reported as a parse error: " \o o.err
       ELSE IF o.at >= 0 /\ o.at # m.at THEN "error reported on line " \o ToString(o.at) \o " instead of " \o ToString(m.at)
       ELSE "ok"
StepV(o) ==
  IF o.stray # <<>> THEN "left a file: " \o o.stray[1]
  ELSE CASE o.k = "make" -> IF o.err = "" THEN "ok" ELSE "failed: " \o o.err
         [] o.k = "lost" -> IF o.err = "" THEN "preprocessing failed, but a result is returned" ELSE "ok"
         [] o.k = "parse" -> ParseV(o, Model[o.m])
         [] o.k = "same" -> IF o.err # o.ref.err THEN "error '" \o o.err \o "' instead of '" \o o.ref.err \o "'"
                            ELSE IF o.dig # o.ref.dig THEN "differs from the result in a new process" ELSE "ok"
(* the session advances step by step; v is the first contradiction *)
Init == c \in 1..Len(Cases) /\ n = 0 /\ v = "ok"
Advance ==
  /\ n < Len(Cases[c].steps) /\ v = "ok"
  /\ n' = n + 1
  /\ LET w == StepV(Cases[c].steps[n + 1]) IN
     v' = (IF w = "ok" THEN "ok" ELSE "step " \o ToString(n + 1) \o " (" \o Cases[c].steps[n + 1].op \o "): " \o w)
  /\ UNCHANGED c
Finish ==
  /\ n = Len(Cases[c].steps) \/ (v # "ok" /\ n < Len(Cases[c].steps))
  /\ n' = Len(Cases[c].steps) + 1
  /\ v' = (IF v # "ok" \/ Cases[c].kept = <<>> THEN v ELSE "a result returned earlier was changed: " \o Cases[c].kept[1])
  /\ PrintT("@" \o Cases[c].id \o "|" \o v') /\ UNCHANGED c
Next == Advance \/ Finish
Spec == Init /\ [][Next]_<<c, n, v>>
===========================================================================
