---------------------------- MODULE CheckSubset ---------------------------
(* Conformance of recorded sub graphs.  A case is a source text (s, codes c), its    *)
(* data flow graph (terms, binds), target signals, and what VerilogSubset returned    *)
(* for them: the binds (sub) and the signals they read (sources); and the text of the *)
(* module generated from the sub graph (code, its codes cc; "" if none), in which a    *)
(* signal n is called map[n].  clk, rst: the names of the clock and reset inputs.      *)
(*                                                                                    *)
(* The sub graph is the part of the graph that the targets transitively depend on: no *)
(* bind more, none less.  Alone it gives all its signals the values of the design; so  *)
(* does the generated module, whose registers keep their clocks and resets.           *)
EXTENDS CheckFlow

BindTerms(b) == TermsIn(b.tree) \union TermsIn(b.ptr) \union TermsIn(b.msb) \union TermsIn(b.lsb)
Key(b) == <<b.n, b.msb, b.lsb, b.ptr, b.tree, b.p>>
BindsOf(k, n) == {i \in 1..Len(k.binds) : k.binds[i].n = n}
(* the parameters its declared ranges depend on *)
RangeTerms(k, n) == UNION {LET t == k.terms[i] IN TermsIn(t.msb) \union TermsIn(t.lsb) \union UNION {TermsIn(t.dims[j][1]) \union TermsIn(t.dims[j][2]) : j \in 1..Len(t.dims)} :
                          i \in {j \in 1..Len(k.terms) : k.terms[j].n = n}}
ClockOf(k, n) == {k.clocks[i].clk : i \in {j \in 1..Len(k.clocks) : k.clocks[j].n = n /\ k.clocks[j].ce # ""}} \ {k.top \o "." \o k.clk}
(* what the signals S depend on: the operands of their binds, clocks that are not the clock, parameters of ranges *)
Reads(k, S) == UNION {UNION {BindTerms(k.binds[i]) : i \in BindsOf(k, n)} \union ClockOf(k, n) \union RangeTerms(k, n) : n \in S}
RECURSIVE Closure(_, _)
Closure(k, S) == LET T == S \union Reads(k, S) IN IF T = S THEN S ELSE Closure(k, T)

Sub(k) ==
  LET D == TLCEval(Closure(k, SetOf(k.targets)))
      want == {Key(k.binds[i]) : i \in {j \in 1..Len(k.binds) : k.binds[j].n \in D}}
      got == {Key(k.sub[i]) : i \in 1..Len(k.sub)}
      from == Reads(k, D) IN
  IF want \ got # {} THEN "the sub graph lacks a bind of " \o (CHOOSE x \in want \ got : TRUE)[1]
  ELSE IF got \ want # {} THEN "the sub graph has a bind of " \o (CHOOSE x \in got \ want : TRUE)[1] \o ", which no target depends on"
  ELSE IF Len(k.sub) # Cardinality({j \in 1..Len(k.binds) : k.binds[j].n \in D}) THEN "the sub graph has a bind twice"
  ELSE IF from \ SetOf(k.sources) # {} THEN "not among the sources: " \o (CHOOSE n \in from \ SetOf(k.sources) : TRUE)
  ELSE IF SetOf(k.sources) \ D # {} THEN "a source no target depends on: " \o (CHOOSE n \in SetOf(k.sources) \ D : TRUE)
  ELSE "ok"

---------------------------------------------------------------------------
(* The elaborated design E against the elaborated generated module Y, which calls the *)
(* signal n of the design Of[n].                                                      *)
Shared(k, E, Y, D) ==
  [n \in {m \in D \intersect DOMAIN E.T : ~E.T[m].c /\ E.sigs[E.T[m].i].cmp} |-> (CHOOSE i \in 1..Len(k.map) : k.map[i][1] = n)]
Cmp(k, E, Y, Of, a, b, what) ==
  LET D == {n \in DOMAIN Of : a[E.T[n].i] # b[Y.T[k.map[Of[n]][2]].i]} IN
  IF D = {} THEN "ok" ELSE LET n == CHOOSE x \in D : TRUE IN
       "generated code: " \o n \o " " \o what \o ": is " \o Show(b[Y.T[k.map[Of[n]][2]].i]) \o " instead of " \o Show(a[E.T[n].i])
(* the store of Y that has the values of st, the clock and reset inputs too *)
Carry(k, E, Y, Of, st) ==
  LET inv == TLCEval([m \in {k.map[Of[n]][2] : n \in DOMAIN Of} |-> (CHOOSE n \in DOMAIN Of : k.map[Of[n]][2] = m)])
      extra == [m \in {"Subset." \o k.clk, "Subset." \o k.rst} |-> IF m = "Subset." \o k.clk THEN k.top \o "." \o k.clk ELSE k.top \o "." \o k.rst] IN
  [i \in 1..Len(Y.sigs) |->
     LET m == Y.sigs[i].n IN
     IF m \in DOMAIN inv THEN st[E.T[inv[m]].i]
     ELSE IF m \in DOMAIN extra /\ extra[m] \in DOMAIN E.T THEN st[E.T[extra[m]].i]
     ELSE Zero(Y, i)]
(* the clocks and resets of the registers of both *)
Renamed(k, n) == IF \E i \in 1..Len(k.map) : k.map[i][1] = n THEN k.map[CHOOSE i \in 1..Len(k.map) : k.map[i][1] = n][2] ELSE ""
ClocksIn(k, E, Y, Of) ==
  LET a == {<<Renamed(k, x[1]), <<Renamed(k, x[2][1]), x[2][2], x[2][3]>>, <<Renamed(k, x[3][1]), x[3][2], x[3][3]>>>> : x \in {y \in SpecClocks(E) : y[1] \in DOMAIN Of}}
      b == SpecClocks(Y) IN
  IF a \ b # {} THEN "generated code: clock: missing or different " \o Show(CHOOSE x \in a \ b : TRUE) \o " among " \o Show(b \ a) ELSE "ok"
RECURSIVE CodeVectors(_, _, _, _, _, _)
CodeVectors(k, E, Y, Of, free, i) ==
  IF i > Len(k.vecs) THEN "ok"
  ELSE
  LET st0 == TLCEval(InitStore(E, free, k.vecs[i]))
      A == Settle(E, st0, 40)
      B == Settle(Y, TLCEval(Carry(k, E, Y, Of, st0)), 40) IN
  IF ~A.ok THEN "MACHINERY: the design does not settle"
  ELSE IF ~B.ok THEN "the generated code does not settle (combinational loop)"
  ELSE LET r == Cmp(k, E, Y, Of, A.s, B.s, "after settling, vector " \o Show(i)) IN
  IF r # "ok" THEN r
  ELSE LET n == Cmp(k, E, Y, Of, NextStore(E, A.s), NextStore(Y, B.s), "after a clock edge, vector " \o Show(i)) IN
  IF n # "ok" THEN n ELSE CodeVectors(k, E, Y, Of, free, i + 1)
Code(k, E) ==
  LET x == Lex(k.code, k.cc)
      e == ParseSource(Padded(x.toks, x.l)) IN
  IF ~x.ok \/ ~e.ok THEN "the generated code is no Verilog"
  ELSE LET D == IF Len(k.targets) = 0 THEN {k.terms[i].n : i \in 1..Len(k.terms)}  (* the whole graph *)
                ELSE SetOf(k.sources) \union {k.sub[i].n : i \in 1..Len(k.sub)}
           Y == TLCEval(Elab(e.n.c[1].c, "Subset"))
           Of == TLCEval(Shared(k, E, Y, D))
           lost == {n \in DOMAIN Of : ~(k.map[Of[n]][2] \in DOMAIN Y.T)} IN
  IF lost # {} THEN "generated code: lacks " \o (CHOOSE n \in lost : TRUE)
  ELSE LET r == CodeVectors(k, E, Y, Of, ({j \in 1..Len(E.sigs) : E.sigs[j].cmp} \ Driven(E)) \union StateSigs(E), 1) IN
  IF r # "ok" THEN r ELSE ClocksIn(k, E, Y, Of)

SubsetVerdict(k) ==
  LET x == Lex(k.s, k.c)
      e == ParseSource(Padded(x.toks, x.l)) IN
  IF ~x.ok \/ ~e.ok THEN "MACHINERY: invalid source"
  ELSE IF k.err # "" THEN "rejected: " \o k.err
  ELSE LET r == Sub(k) IN
  IF r # "ok" \/ k.code = "" THEN r ELSE Code(k, TLCEval(Elab(e.n.c[1].c, k.top)))

SubsetNext == v = "todo" /\ v' = SubsetVerdict(Cases[c]) /\ UNCHANGED c /\ PrintT("@" \o Cases[c].id \o "|" \o v')
SubsetSpec == Init /\ [][SubsetNext]_<<c, v>>
===========================================================================
