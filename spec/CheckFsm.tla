----------------------------- MODULE CheckFsm -----------------------------
(* Conformance of recorded finite state machines.  A case is a source text (s,     *)
(* codes c) and what VerilogControlflowAnalyzer returned for it: fsms, each with     *)
(* its state register n, its transitions [src, cond, dst], those of any state        *)
(* [cond, dst] and its loops; and act, the conditions [signal, register, state,      *)
(* cond] under which the active condition analyzer says that a signal is given a     *)
(* constant that is not 0.  rst: the reset inputs with their inactive values; want:  *)
(* the registers whose machine must have been found.                                 *)
(*                                                                                   *)
(* The machine of a register is the next state function of the elaborated design.    *)
(* For every state and every given input: a transition whose condition holds leads    *)
(* to the next state, and a change of state has a transition whose condition holds.  *)
EXTENDS CheckFlow

CondsOf(k) == UNION {{f.trans[i].cond : i \in 1..Len(f.trans)} \union {f.any[i].cond : i \in 1..Len(f.any)} : f \in SetOf(k.fsms)}
              \union {k.act[i].cond : i \in 1..Len(k.act)}
Compile(G, t) == IF t.k = "None" THEN Const(1, 1) ELSE Tree(G, t)
Holds(x, st) == Eval(x, x.w, st, <<>>) # 0

(* the store of one vector: inputs and registers random, resets inactive, register j = q *)
Fixed(E, k, st, j, q) ==
  [i \in 1..Len(st) |->
     IF i = j THEN q
     ELSE IF \E n \in 1..Len(k.rst) : E.T[k.rst[n].n].i = i THEN k.rst[CHOOSE n \in 1..Len(k.rst) : E.T[k.rst[n].n].i = i].v ELSE st[i]]

(* [src, cond, dst]; src = -1 for any state *)
Trans(G, f) == [i \in 1..Len(f.trans) |-> [s |-> f.trans[i].src, x |-> Compile(G, f.trans[i].cond), d |-> f.trans[i].dst]]
               \o [i \in 1..Len(f.any) |-> [s |-> -1, x |-> Compile(G, f.any[i].cond), d |-> f.any[i].dst]]

Points(k, E, G, f, j, W) ==
  LET free == {i \in 1..Len(E.sigs) : E.sigs[i].cmp} \ Driven(E)
      state == StateSigs(E)
      tr == TLCEval(Trans(G, f))
      Point(q, i) ==
        LET A == Settle(E, TLCEval(Fixed(E, k, InitStore(E, free \union state, k.vecs[i]), j, q)), 40)
            n == NextStore(E, A.s)[j]
            g == TLCEval(FlowStore(E, G, A.s))
            R == {tr[m].d : m \in {x \in 1..Len(tr) : tr[x].s \in {q, -1} /\ Holds(tr[x].x, g)}} IN
        IF ~A.ok THEN "MACHINERY: the design does not settle"
        ELSE IF R \ {n} # {} THEN "from state " \o Show(q) \o " to " \o Show(CHOOSE d \in R \ {n} : TRUE) \o " although the next state is " \o Show(n) \o ", vector " \o Show(i)
        ELSE IF n # q /\ R = {} /\ k.full THEN "no transition from state " \o Show(q) \o " to " \o Show(n) \o ", vector " \o Show(i)
        ELSE "ok"
      bad == {<<q, i>> \in (0..(P2(W) - 1)) \X (1..Len(k.vecs)) : Point(q, i) # "ok"} IN
  IF bad = {} THEN "ok" ELSE LET b == CHOOSE x \in bad : \A y \in bad : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2]) IN Point(b[1], b[2])

(* the elementary cycles of the edges Ed, each beginning with its least state *)
RECURSIVE Cycles(_, _)
Cycles(Ed, p) ==
  (IF <<p[Len(p)], p[1]>> \in Ed THEN {p} ELSE {})
  \union UNION {Cycles(Ed, Append(p, d)) : d \in {e[2] : e \in {y \in Ed : y[1] = p[Len(p)] /\ y[2] > p[1] /\ \A i \in 1..Len(p) : p[i] # y[2]}}}
Loops(f) == LET Ed == {<<f.trans[i].src, f.trans[i].dst>> : i \in 1..Len(f.trans)} IN UNION {Cycles(Ed, <<e[1]>>) : e \in Ed}

Machine(k, E, G, f) ==
  IF ~(f.n \in DOMAIN E.T) THEN f.n \o ": no such register"
  ELSE LET j == E.T[f.n].i  W == E.sigs[j].w IN
  IF \E i \in 1..Len(f.trans) : f.trans[i].src >= P2(W) \/ f.trans[i].dst >= P2(W) THEN f.n \o ": a state does not fit the register"
  ELSE LET r == Points(k, E, G, f, j, W) IN
  IF r # "ok" THEN f.n \o ": " \o r
  ELSE IF Loops(f) # SetOf(f.loops) THEN f.n \o ": loops " \o Show(SetOf(f.loops)) \o " instead of " \o Show(Loops(f))
  ELSE "ok"

(* the signal a.y is not 0 whenever the register a.n is in state a.q and the condition holds *)
Active(k, E, G, a) ==
  LET free == {i \in 1..Len(E.sigs) : E.sigs[i].cmp} \ Driven(E)
      state == StateSigs(E)
      y == E.T[a.y].i
      x == Compile(G, a.cond)
      bad == {i \in 1..Len(k.vecs) :
                LET A == Settle(E, TLCEval(Fixed(E, k, InitStore(E, free \union state, k.vecs[i]), E.T[a.n].i, a.q)), 40) IN
                Holds(x, FlowStore(E, G, A.s)) /\ (IF y \in state THEN NextStore(E, A.s)[y] ELSE A.s[y]) = 0} IN
  IF bad = {} THEN "ok" ELSE a.y \o " is 0 in state " \o Show(a.q) \o " of " \o a.n \o " although its active condition holds, vector " \o Show(CHOOSE i \in bad : TRUE)

FsmVerdict(k) ==
  LET x == Lex(k.s, k.c)
      T == Padded(x.toks, x.l)
      e == ParseSource(T) IN
  IF ~x.ok \/ ~e.ok THEN "MACHINERY: invalid source"
  ELSE IF k.err # "" THEN "rejected: " \o k.err
  ELSE LET E == TLCEval(Elab(e.n.c[1].c, k.top))
           G == TLCEval(Graph(k))
           odd == UNION {TermsIn(z) : z \in CondsOf(k)} \ (DOMAIN G.T \intersect {n \in DOMAIN E.T : ~E.T[n].c}) IN
  IF odd # {} THEN "a condition mentions " \o (CHOOSE n \in odd : TRUE) \o ", which is no signal of the design"
  ELSE IF SetOf(k.want) \ {f.n : f \in SetOf(k.fsms)} # {} THEN "no state machine found for " \o (CHOOSE n \in SetOf(k.want) \ {f.n : f \in SetOf(k.fsms)} : TRUE)
  ELSE LET bad == {f \in SetOf(k.fsms) : Machine(k, E, G, f) # "ok"} IN
  IF bad # {} THEN Machine(k, E, G, CHOOSE f \in bad : TRUE)
  ELSE LET worse == {a \in SetOf(k.act) : Active(k, E, G, a) # "ok"} IN
  IF worse # {} THEN Active(k, E, G, CHOOSE a \in worse : TRUE) ELSE "ok"

FsmNext == v = "todo" /\ v' = FsmVerdict(Cases[c]) /\ UNCHANGED c /\ PrintT("@" \o Cases[c].id \o "|" \o v')
FsmSpec == Init /\ [][FsmNext]_<<c, v>>
===========================================================================
