------------------------------- MODULE VFlow ------------------------------
(***************************************************************************)
(* Meaning of a data flow graph.                                            *)
(*                                                                          *)
(* A recorded graph is a sequence of terms [n, ty, msb, lsb, dims] and of    *)
(* binds [n, msb, lsb, ptr, tree, p ("par", "comb", "clk")].  Trees are      *)
(* [k, s, c, v, w].  A graph is compiled to the same processes and           *)
(* expressions (VSem) as an elaborated design (VElab), so that both can be   *)
(* run on the same inputs.                                                   *)
(***************************************************************************)
EXTENDS VElab

NoTree == [k |-> "None", s |-> "", c |-> <<>>, v |-> 0, w |-> 0]
Has(t) == t.k # "None"

(* G = [T: name -> index of term, sigs] where sigs[i] = [w, hi, lo, d, d0] *)
RECURSIVE Tree(_, _), TreeAll(_, _, _)
TreeAll(G, c, i) == IF i > Len(c) THEN <<>> ELSE <<Tree(G, c[i])>> \o TreeAll(G, c, i + 1)
(* declared range of what a select is applied to *)
RangeOf(G, t) ==
  IF t.k = "Term" THEN LET g == G.sigs[G.T[t.s]] IN [hi |-> g.hi, lo |-> g.lo, up |-> g.hi >= g.lo]
  ELSE IF t.k = "Pointer" /\ t.c[1].k = "Term" THEN LET g == G.sigs[G.T[t.c[1].s]] IN [hi |-> g.hi, lo |-> g.lo, up |-> g.hi >= g.lo]
  ELSE [hi |-> IW, lo |-> 0, up |-> TRUE]
Tree(G, t) ==
  CASE t.k = "None" -> NoX
    [] t.k = "Int" -> LitX(t.s)
    [] t.k = "Val" -> LET w == IF t.w > IW \/ t.w <= 0 THEN IW ELSE t.w IN Const(t.v % P2(w), w)
    [] t.k = "Term" -> LET i == G.T[t.s] IN X("V", G.sigs[i].w, <<>>, i)
    [] t.k = "Branch" ->
         LET b == Tree(G, t.c[2])  d == Tree(G, t.c[3]) IN Ite(Tree(G, t.c[1]), b, d)
    [] t.k = "Concat" -> Cat(TreeAll(G, t.c, 1))
    [] t.k = "Partselect" ->
         LET g == RangeOf(G, t.c[1])
             b == Tree(G, t.c[1])
             h == Fold(Tree(G, t.c[2]))
             l == Fold(Tree(G, t.c[3])) IN
         IF t.c[2] = t.c[3] THEN BitOf(b, g, h)
         ELSE IF IsConstX(h) /\ IsConstX(l)
         THEN X("Sl", (IF g.up THEN h.v - l.v ELSE l.v - h.v) + 1, <<b>>, Pos(g, l.v))
         ELSE X("DSl", SelWidth(G, h, l), <<b, l>>, g.lo)
    [] t.k = "Pointer" ->
         IF t.c[1].k = "Term" /\ G.sigs[G.T[t.c[1].s]].d > 0
         THEN LET i == G.T[t.c[1].s] IN X("M", G.sigs[i].w, <<Tree(G, t.c[2]), Const(G.sigs[i].d0, IW)>>, i)
         ELSE BitOf(Tree(G, t.c[1]), RangeOf(G, t.c[1]), Fold(Tree(G, t.c[2])))
    [] t.k \in {"Undef", "Highz"} -> Const(0, IF t.w > 0 /\ t.w < IW THEN t.w ELSE 1)
    [] t.k = "Op" -> Op(t.s, TreeAll(G, t.c, 1))

(* every terminal of a tree names a term *)
RECURSIVE TermsIn(_)
TermsIn(t) == IF t.k = "Term" THEN {t.s} ELSE UNION {TermsIn(t.c[i]) : i \in 1..Len(t.c)}

---------------------------------------------------------------------------
(* Values of parameters: tab maps each resolved parameter to [v, w]; a         *)
(* parameter is resolved once all those its bind and range mention are.         *)
ParBind(O, n) == LET S == {i \in 1..Len(O.binds) : O.binds[i].n = n /\ O.binds[i].p = "par"} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
ParNames(O) == {O.binds[i].n : i \in {j \in 1..Len(O.binds) : O.binds[j].p = "par"}}
RECURSIVE ParTree(_, _), ParAll(_, _, _)
ParAll(tab, c, i) == IF i > Len(c) THEN <<>> ELSE <<ParTree(tab, c[i])>> \o ParAll(tab, c, i + 1)
(* a tree over parameters with the parameters replaced by their values *)
ParTree(tab, t) ==
  CASE t.k = "Term" -> IF ~(t.s \in DOMAIN tab) THEN [t EXCEPT !.k = "Val"] ELSE
         [k |-> "Val", s |-> "", c |-> <<>>, v |-> tab[t.s].v, w |-> tab[t.s].w]
    [] OTHER -> [t EXCEPT !.c = ParAll(tab, @, 1)]
NumOf(tab, t) ==
  LET x == Tree([T |-> <<>>, sigs |-> <<>>], ParTree(tab, t)) IN IF t.k = "None" THEN 0 ELSE Eval(x, x.w, <<>>, <<>>)
TermOf(O, n) == O.terms[CHOOSE i \in 1..Len(O.terms) : O.terms[i].n = n]
AbsW(a, b) == LET w == IF a >= b THEN a - b + 1 ELSE b - a + 1 IN IF w > IW THEN IW ELSE w
ParWidth(tab, t) == IF ~Has(t.msb) THEN IW ELSE AbsW(NumOf(tab, t.msb), NumOf(tab, t.lsb))
ParVal(O, tab, n) ==
  LET b == O.binds[ParBind(O, n)]
      w == ParWidth(tab, TermOf(O, n))
      x == Tree([T |-> <<>>, sigs |-> <<>>], ParTree(tab, b.tree)) IN
  [v |-> Eval(x, MaxI(x.w, w), <<>>, <<>>) % P2(w), w |-> w]
RECURSIVE ParTab(_, _, _)
ParTab(O, tab, todo) ==
  LET Deps(n) == LET t == TermOf(O, n) IN
        (TermsIn(O.binds[ParBind(O, n)].tree) \union TermsIn(t.msb) \union TermsIn(t.lsb)) \intersect ParNames(O)
      R == {n \in todo : Deps(n) \subseteq DOMAIN tab} IN
  IF R = {} THEN tab
  ELSE ParTab(O, TLCEval([n \in DOMAIN tab \union R |-> IF n \in R THEN ParVal(O, tab, n) ELSE tab[n]]), todo \ R)

---------------------------------------------------------------------------
(* Compilation of a graph O to [sigs, T, P, F].                               *)
TermSig(tab, t) ==
  LET hi == IF Has(t.msb) THEN NumOf(tab, t.msb) ELSE 0
      lo == IF Has(t.lsb) THEN NumOf(tab, t.lsb) ELSE 0
      d == IF t.dims = <<>> THEN <<>> ELSE <<NumOf(tab, t.dims[1][1]), NumOf(tab, t.dims[1][2])>> IN
  [n |-> t.n, w |-> AbsW(hi, lo), hi |-> hi, lo |-> lo,
   d |-> IF d = <<>> THEN 0 ELSE AbsW(d[1], d[2]), d0 |-> IF d = <<>> THEN 0 ELSE IF d[1] < d[2] THEN d[1] ELSE d[2]]

BindPart(G, b) ==
  LET i == G.T[b.n]
      g == G.sigs[i]
      h == Fold(Tree(G, b.msb))
      l == Fold(Tree(G, b.lsb)) IN
  IF Has(b.ptr)
  THEN IF Has(b.msb) THEN Part(i, AbsW(h.v, l.v), "A", Tree(G, b.ptr), g.d0, g.w, Const(Pos(g, l.v), IW))
       ELSE Part(i, g.w, "A", Tree(G, b.ptr), g.d0, g.w, NoX)
  ELSE IF ~Has(b.msb) THEN Part(i, g.w, "W", NoX, 0, g.w, NoX)
  ELSE IF IsConstX(h) /\ IsConstX(l) THEN Part(i, AbsW(h.v, l.v), "P", Const(Pos(g, l.v), IW), 0, g.w, NoX)
  ELSE IF b.msb = b.lsb THEN Part(i, 1, IF g.hi >= g.lo THEN "D" ELSE "R", h, g.lo, g.w, NoX)
  ELSE Part(i, SelWidth(G, h, l), "D", l, g.lo, g.w, NoX)

(* The branches at the root of a tree are conditional assignments: their values *)
(* do not widen one another (?: and if are the same node).                       *)
RECURSIVE BindStmt(_, _, _, _)
BindStmt(G, part, t, kind) ==
  IF t.k = "None" THEN Skip
  ELSE IF t.k = "Branch"
  THEN Stmt("If", <<>>, <<Tree(G, t.c[1])>>, <<BindStmt(G, part, t.c[2], kind), BindStmt(G, part, t.c[3], kind)>>, <<>>)
  ELSE Stmt(kind, <<part>>, <<Tree(G, t)>>, <<>>, <<>>)
BindProc(G, b) ==
  [t |-> b.p, s |-> BindStmt(G, BindPart(G, b), b.tree, IF b.p = "clk" THEN "BindN" ELSE "Bind")]

Graph(O) ==
  LET tab == TLCEval(ParTab(O, [x \in {} |-> <<>>], ParNames(O)))
      sigs == TLCEval([i \in 1..Len(O.terms) |-> TermSig(tab, O.terms[i])])
      T == TLCEval([n \in {O.terms[i].n : i \in 1..Len(O.terms)} |-> CHOOSE i \in 1..Len(O.terms) : O.terms[i].n = n])
      G == [T |-> T, sigs |-> sigs] IN
  [sigs |-> sigs, T |-> T, F |-> <<>>, P |-> TLCEval([i \in 1..Len(O.binds) |-> BindProc(G, O.binds[i])])]

(* names used in a graph that are not terms of it *)
Unknown(O) ==
  LET N == {O.terms[i].n : i \in 1..Len(O.terms)} IN
  UNION {({O.binds[i].n} \union TermsIn(O.binds[i].tree) \union TermsIn(O.binds[i].ptr)
          \union TermsIn(O.binds[i].msb) \union TermsIn(O.binds[i].lsb)) \ N : i \in 1..Len(O.binds)}
===========================================================================
