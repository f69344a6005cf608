----------------------------- MODULE CheckFlow ----------------------------
(* Conformance of recorded data flow graphs.  A case is a source text (s,     *)
(* codes c), its top module, and what the analyzer returned: terms, binds and *)
(* instances, or err.  mode lists what to compare:                            *)
(*   "values"  for the given random vectors, the value of every signal: after  *)
(*             the combinational logic has settled, and after a clock edge     *)
(*   "terms"   the table of signals and constants, and the instances           *)
(*   "clocks"  the clock and reset attached to the binds of state signals      *)
EXTENDS VGrammar, VLex, VFlow, Json
Data == JsonDeserialize("data.json")
Cases == Data.cases
VARIABLES c, v

IsIn(x, S) == \E i \in 1..Len(S) : S[i] = x

(* a random number of w bits *)
Rnd(r, w, j) == LET n == Len(r) IN
  ((r[((2 * j) % n) + 1] * 32768) + r[((2 * j + 1) % n) + 1]) % P2(w)
InitStore(E, free, r) ==
  [j \in 1..Len(E.sigs) |->
     LET g == E.sigs[j] IN
     IF g.d > 0 THEN [q \in 1..g.d |-> IF j \in free THEN Rnd(r, g.w, j * 7 + q) ELSE 0]
     ELSE IF j \in free THEN Rnd(r, g.w, j) ELSE 0]
FlowStore(E, G, st) ==
  [i \in 1..Len(G.sigs) |->
     LET g == G.sigs[i] IN
     IF g.n \in DOMAIN E.T /\ ~E.T[g.n].c THEN st[E.T[g.n].i]
     ELSE IF g.d > 0 THEN [q \in 1..g.d |-> 0] ELSE 0]
Zero(E, j) == IF E.sigs[j].d > 0 THEN [q \in 1..E.sigs[j].d |-> 0] ELSE 0

Show(x) == ToString(x)
CmpSigs(E, G, a, b, i0, what) ==
  LET D == {j \in 1..Len(E.sigs) : E.sigs[j].cmp /\ E.sigs[j].n \in DOMAIN G.T /\ a[j] # b[G.T[E.sigs[j].n]]} IN
  IF D = {} THEN "ok"
  ELSE LET j == CHOOSE x \in D : \A y \in D : x <= y
           g == E.sigs[j] IN
       g.n \o " " \o what \o ": is " \o Show(b[G.T[g.n]]) \o " instead of " \o Show(a[j])

RECURSIVE CmpConsts(_, _, _, _)
CmpConsts(E, G, b, ns) ==
  IF ns = {} THEN "ok"
  ELSE LET n == CHOOSE x \in ns : TRUE  k == E.consts[n] IN
  IF k.k \in {"Parameter", "Localparam"} /\ n \in DOMAIN G.T /\ b[G.T[n]] # k.v
  THEN n \o ": is " \o Show(b[G.T[n]]) \o " instead of " \o Show(k.v)
  ELSE CmpConsts(E, G, b, ns \ {n})

Missing(E, G) ==
  LET S == {j \in 1..Len(E.sigs) : E.sigs[j].cmp /\ (~(E.sigs[j].n \in DOMAIN G.T) \/ G.sigs[G.T[E.sigs[j].n]].d # E.sigs[j].d)} IN
  IF S = {} THEN "" ELSE E.sigs[CHOOSE j \in S : TRUE].n

RECURSIVE Vectors(_, _, _, _, _, _)
Vectors(E, G, free, state, vecs, i) ==
  IF i > Len(vecs) THEN "ok"
  ELSE
  LET st0 == TLCEval(InitStore(E, free \union state, vecs[i]))
      A == Settle(E, st0, 40)
      B == Settle(G, TLCEval(FlowStore(E, G, st0)), 40) IN
  IF ~A.ok THEN "MACHINERY: the design does not settle"
  ELSE IF ~B.ok THEN "the data flow graph does not settle (combinational loop)"
  ELSE LET r == CmpSigs(E, G, A.s, B.s, 1, "after settling, vector " \o ToString(i)) IN
  IF r # "ok" THEN r
  ELSE LET q == IF i = 1 THEN CmpConsts(E, G, B.s, DOMAIN E.consts) ELSE "ok" IN
  IF q # "ok" THEN q
  ELSE LET n == CmpSigs(E, G, NextStore(E, A.s), NextStore(G, B.s), 1, "after a clock edge, vector " \o ToString(i)) IN
  IF n # "ok" THEN n ELSE Vectors(E, G, free, state, vecs, i + 1)

Values(k, E, G) ==
  LET state == StateSigs(E)
      free == {j \in 1..Len(E.sigs) : E.sigs[j].cmp} \ Driven(E) IN
  IF Missing(E, G) # "" THEN "no term for " \o Missing(E, G)
  ELSE Vectors(E, G, free, state, k.vecs, 1)

---------------------------------------------------------------------------
(* Terms: [n, ty, ...]; those of kinds Rename, Function, Task are internal.    *)
Internal(t) == IsIn("Rename", t.ty) \/ IsIn("Function", t.ty) \/ IsIn("Task", t.ty) \/ IsIn("Genvar", t.ty)
SetOf(s) == {s[i] : i \in 1..Len(s)}
SpecTerms(E) ==
  {<<E.sigs[j].n, E.sigs[j].ks, E.sigs[j].hi, E.sigs[j].lo, E.sigs[j].d, E.sigs[j].d0>> : j \in {i \in 1..Len(E.sigs) : E.sigs[i].own}}
  \union {<<n, {E.consts[n].k}, IF E.consts[n].rng THEN E.consts[n].hi ELSE 31, E.consts[n].lo, 0, 0>> : n \in {m \in DOMAIN E.consts : E.consts[m].k \in {"Parameter", "Localparam"}}}
FlowTerms(O, G) ==
  {LET t == O.terms[i]  g == G.sigs[i] IN
   IF t.ty \in {<<"Parameter">>, <<"Localparam">>} THEN <<t.n, SetOf(t.ty), g.hi, g.lo, 0, 0>>
   ELSE <<t.n, SetOf(t.ty), g.hi, g.lo, g.d, g.d0>> : i \in {j \in 1..Len(O.terms) : ~Internal(O.terms[j]) /\ ~O.terms[j].loc}}
InstSet(I) == {<<I[i].n, I[i].m>> : i \in 1..Len(I)}
Terms(k, E, G) ==
  LET a == SpecTerms(E)  b == FlowTerms(k, G) IN
  IF a \ b # {} THEN "terms: missing or different " \o Show(CHOOSE x \in a \ b : TRUE)
       \o " among " \o Show({x \in b \ a : \E y \in a \ b : x[1] = y[1]})
  ELSE IF b \ a # {} THEN "terms: unexpected " \o Show(CHOOSE x \in b \ a : TRUE)
  ELSE IF InstSet(k.insts) # InstSet(E.insts) \/ Len(k.insts) # Len(E.insts) THEN "instances: " \o Show(InstSet(k.insts)) \o " instead of " \o Show(InstSet(E.insts))
  ELSE "ok"

---------------------------------------------------------------------------
(* The clock and the reset of an edge triggered process are the signals of its *)
(* sensitivity list whose names contain clk/clock and rst/reset (the naming      *)
(* convention of the analyzer); every state signal carries those of its process. *)
UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
LowCh(x) == IF \E i \in 1..26 : Ch(UpperCase, i) = x THEN Ch(LowerCase, CHOOSE i \in 1..26 : Ch(UpperCase, i) = x) ELSE x
HasWord(n, w) == \E i \in 0..(Len(n) - Len(w)) : \A j \in 1..Len(w) : LowCh(Ch(n, i + j)) = Ch(w, j)
IsClk(n) == HasWord(n, "clock") \/ HasWord(n, "clk")
IsRst(n) == ~IsClk(n) /\ (HasWord(n, "reset") \/ HasWord(n, "rst"))
SensId(z) == IF z.c[1].k = "Pointer" THEN z.c[1].c[1] ELSE z.c[1]
SensBit(E, ps, z) == IF z.c[1].k = "Pointer" THEN ConstVal(E, ps, z.c[1].c[2]) ELSE 0
SensOf(E, i, Wanted(_)) ==
  LET r == E.P[i].x
      L == r.x.c[1].c
      S == {j \in 1..Len(L) : Wanted(SensId(L[j]).s)} IN
  IF S = {} THEN <<"", "", 0>>
  ELSE LET z == L[CHOOSE j \in S : \A m \in S : m <= j] IN
       <<E.sigs[Lookup(E.T, r.ps, SensId(z).s).i].n, z.s, SensBit(E, r.ps, z)>>
SpecClocks(E) ==
  UNION {LET x == SensOf(E, i, IsClk)  y == SensOf(E, i, IsRst) IN
         {<<E.sigs[j].n, x, y>> : j \in {m \in Targets(E.P[i].s) : E.sigs[m].cmp}} :
         i \in {j \in 1..Len(E.P) : E.P[j].t = "clk"}}
Clocks(k, E) ==
  LET a == SpecClocks(E)
      N == {E.sigs[j].n : j \in {m \in 1..Len(E.sigs) : E.sigs[m].cmp}}
      b == {<<k.clocks[i].n, <<k.clocks[i].clk, k.clocks[i].ce, k.clocks[i].cb>>, <<k.clocks[i].rst, k.clocks[i].re, k.clocks[i].rb>>>> :
             i \in {j \in 1..Len(k.clocks) : k.clocks[j].ce # "" /\ k.clocks[j].n \in N}} IN
  IF a \ b # {} THEN "clock: missing or different " \o Show(CHOOSE x \in a \ b : TRUE)
       \o " among " \o Show({x \in b \ a : \E y \in a \ b : x[1] = y[1]})
  ELSE IF b \ a # {} THEN "clock: unexpected " \o Show(CHOOSE x \in b \ a : TRUE) ELSE "ok"

---------------------------------------------------------------------------
Verdict(k) ==
  LET x == Lex(k.s, k.c)
      T == Padded(x.toks, x.l)
      e == ParseSource(T) IN
  IF ~x.ok \/ ~e.ok THEN "MACHINERY: invalid source"
  ELSE IF k.err # "" THEN "rejected: " \o k.err
  ELSE IF ~k.same THEN "the data flow given to the optimizer was modified"
  ELSE LET E == TLCEval(Elab(e.n.c[1].c, k.top)) IN
  IF Unknown(k) # {} THEN "no term for " \o Show(CHOOSE n \in Unknown(k) : TRUE)
  ELSE LET G == TLCEval(Graph(k))
           r == IF "terms" \in SetOf(k.mode) THEN Terms(k, E, G) ELSE "ok" IN
  IF r # "ok" THEN r
  ELSE LET q == IF "clocks" \in SetOf(k.mode) THEN Clocks(k, E) ELSE "ok" IN
  IF q # "ok" THEN q ELSE IF "values" \in SetOf(k.mode) THEN Values(k, E, G) ELSE "ok"

Init == c \in 1..Len(Cases) /\ v = "todo"
Next == v = "todo" /\ v' = Verdict(Cases[c]) /\ UNCHANGED c
        /\ PrintT("@" \o Cases[c].id \o "|" \o v')
Spec == Init /\ [][Next]_<<c, v>>
===========================================================================
