------------------------------ MODULE VElab -------------------------------
(***************************************************************************)
(* Elaboration of a syntax tree (VGrammar) into a flat design: parameters   *)
(* are resolved, instances and generate constructs expanded, names resolved  *)
(* and expressions compiled to VSem.                                        *)
(*                                                                          *)
(* Flat names: <top>.<inst>...<name>; an item of a labelled generate block   *)
(* is <label>.<name>, of a labelled generate loop <label>[<i>].<name>.       *)
(***************************************************************************)
EXTENDS VSem

DigitOf == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f",
                   "A", "B", "C", "D", "E", "F"} |->
  CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4 [] x = "5" -> 5
    [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] x = "9" -> 9 [] x \in {"a", "A"} -> 10
    [] x \in {"b", "B"} -> 11 [] x \in {"c", "C"} -> 12 [] x \in {"d", "D"} -> 13
    [] x \in {"e", "E"} -> 14 [] OTHER -> 15]
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Digits(_, _, _, _), Quote(_, _)
Digits(s, i, base, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF Ch(s, i) = "_" THEN Digits(s, i + 1, base, acc)
  ELSE Digits(s, i + 1, base, acc * base + DigitOf[Ch(s, i)])
Quote(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "'" THEN i ELSE Quote(s, i + 1)
(* an integer literal: [v, w, sized] *)
Literal(s) ==
  LET q == Quote(s, 1) IN
  IF q = 0 THEN [v |-> Digits(s, 1, 10, 0), w |-> IW, sized |-> FALSE]
  ELSE LET g == IF Ch(s, q + 1) \in {"s", "S"} THEN 1 ELSE 0
           b == Ch(s, q + 1 + g)
           base == CASE b \in {"b", "B"} -> 2 [] b \in {"o", "O"} -> 8 [] b \in {"h", "H"} -> 16 [] OTHER -> 10
           v == Digits(SubSeq(s, q + 2 + g, Len(s)), 1, base, 0)
           w == IF q = 1 THEN IW ELSE Digits(SubSeq(s, 1, q - 1), 1, 10, 0) IN
       [v |-> IF w >= IW THEN v ELSE v % P2(w), w |-> IF w > IW THEN IW ELSE w, sized |-> q > 1]
LitX(s) == LET l == Literal(s) IN Const(l.v, l.w)

---------------------------------------------------------------------------
(* Tables.  A = [sigs, consts, funcs, raw, insts]:                            *)
(*   sigs   sequence of signals [n, w, hi, lo, ks (kinds), d (array length,   *)
(*          0: none), d0 (lowest index), cmp (compared by name), own (a term    *)
(*          of the design), md (module)]                                     *)
(*   consts function flat name -> [v, w, k, hi, lo, rng]                                   *)
(*   funcs  sequence of [n (flat), node, ps (prefixes)]                      *)
(*   raw    sequence of processes [t, x, y, ps]                              *)
(*   insts  sequence of [n (flat), m (module)]                               *)
NamesOf(A) == {A.sigs[i].n : i \in 1..Len(A.sigs)}
RECURSIVE FindSig(_, _, _)
FindSig(sigs, n, i) == IF i > Len(sigs) THEN 0 ELSE IF sigs[i].n = n THEN i ELSE FindSig(sigs, n, i + 1)

(* The lookup table of a design: flat name -> [c (constant?), i, v, w] *)
RECURSIVE Lookup(_, _, _)
Lookup(T, ps, name) ==
  IF ps = <<>> THEN [c |-> FALSE, i |-> 0, v |-> 0, w |-> 1]
  ELSE IF (ps[1] \o name) \in DOMAIN T THEN T[ps[1] \o name] ELSE Lookup(T, Tail(ps), name)

(* labels of a scoped identifier as text *)
RECURSIVE ScopeText(_, _, _, _)

(* Compilation of expressions.  D = [T (table), sigs, fn (flat function name -> index)]. *)
RECURSIVE Comp(_, _, _), CompAll(_, _, _, _), LookFn(_, _, _)
LookFn(D, ps, name) ==
  IF ps = <<>> THEN 0
  ELSE IF (ps[1] \o name) \in DOMAIN D.fn THEN D.fn[ps[1] \o name] ELSE LookFn(D, Tail(ps), name)
CompAll(D, ps, c, i) == IF i > Len(c) THEN <<>> ELSE <<Comp(D, ps, c[i])>> \o CompAll(D, ps, c, i + 1)
ConstVal(D, ps, e) == LET x == Comp(D, ps, e) IN Eval(x, x.w, <<>>, <<>>)
ScopeText(D, ps, labels, i) ==
  IF i > Len(labels) THEN ""
  ELSE labels[i].s \o (IF labels[i].c[1].k = "None" THEN "" ELSE "[" \o ToString(ConstVal(D, ps, labels[i].c[1])) \o "]")
       \o "." \o ScopeText(D, ps, labels, i + 1)
FullName(D, ps, id) ==
  IF id.c[1].k = "None" THEN id.s ELSE ScopeText(D, ps, id.c[1].c, 1) \o id.s

SigOf(D, ps, id) == Lookup(D.T, ps, FullName(D, ps, id))
(* bit position of index x in a signal *)
Pos(g, x) == IF g.hi >= g.lo THEN x - g.lo ELSE g.lo - x
IsConstX(x) == x.k = "C"
RECURSIVE Closed(_)
Closed(x) == x.k \notin {"V", "M", "Call"} /\ \A i \in 1..Len(x.c) : Closed(x.c[i])
Fold(x) == IF Closed(x) THEN Const(Eval(x, x.w, <<>>, <<>>), x.w) ELSE x
(* both bounds of a select under the same assignment of the signals *)
Zeros(D) == [i \in 1..Len(D.sigs) |-> IF D.sigs[i].d > 0 THEN [j \in 1..D.sigs[i].d |-> 0] ELSE 0]
SelWidth(D, hi, lo) == LET z == Zeros(D) IN
  ((Eval(hi, IW, z, <<>>) - Eval(lo, IW, z, <<>>)) % P2(IW)) + 1

(* base: compiled value; g: [hi, lo] its declared range *)
PartOf(D, base, g, hi, lo) ==
  LET h == Fold(hi)  l == Fold(lo) IN
  IF IsConstX(h) /\ IsConstX(l)
  THEN LET a == Pos(g, h.v)  b == Pos(g, l.v) IN X("Sl", a - b + 1, <<base>>, b)
  ELSE X("DSl", SelWidth(D, hi, lo), <<base, lo>>, g.lo)
BitOf(base, g, idx) ==
  LET p == Fold(idx) IN
  IF IsConstX(p) THEN X("Sl", 1, <<base>>, Pos(g, p.v))
  ELSE IF g.hi >= g.lo THEN X("Bit", 1, <<base, p>>, g.lo) ELSE X("RBit", 1, <<base, p>>, g.lo)

Comp(D, ps, e) ==
  CASE e.k = "IntConst" -> LitX(e.s)
    [] e.k = "Rvalue" -> Comp(D, ps, e.c[1])
    [] e.k = "Identifier" -> LET r == SigOf(D, ps, e) IN
         IF r.c THEN Const(r.v, r.w) ELSE X("V", D.sigs[r.i].w, <<>>, r.i)
    [] e.k = "Pointer" ->
         LET idx == Comp(D, ps, e.c[2])
             b == e.c[1] IN
         IF b.k = "Identifier"
         THEN LET r == SigOf(D, ps, b) IN
              IF r.c THEN BitOf(Const(r.v, r.w), [hi |-> r.hi, lo |-> r.lo], idx)
              ELSE LET g == D.sigs[r.i] IN
                   IF g.d > 0 THEN X("M", g.w, <<idx, Const(g.d0, IW)>>, r.i)
                   ELSE BitOf(X("V", g.w, <<>>, r.i), g, idx)
         ELSE (* element of an array, then a bit *)
              LET r == SigOf(D, ps, b.c[1])
                  g == D.sigs[r.i] IN BitOf(Comp(D, ps, b), g, idx)
    [] e.k = "Partselect" ->
         LET hi == Comp(D, ps, e.c[2])  lo == Comp(D, ps, e.c[3])
             b == e.c[1]
             id == IF b.k = "Pointer" THEN b.c[1] ELSE b
             r == SigOf(D, ps, id)
             g == IF r.c THEN [hi |-> r.hi, lo |-> r.lo] ELSE [hi |-> D.sigs[r.i].hi, lo |-> D.sigs[r.i].lo] IN
         PartOf(D, Comp(D, ps, b), g, hi, lo)
    [] e.k = "Concat" -> Cat(CompAll(D, ps, e.c, 1))
    [] e.k = "Repeat" -> LET v == Comp(D, ps, e.c[1]) IN Cat([i \in 1..ConstVal(D, ps, e.c[2]) |-> v])
    [] e.k = "Cond" -> Ite(Comp(D, ps, e.c[1]), Comp(D, ps, e.c[2]), Comp(D, ps, e.c[3]))
    [] e.k = "FunctionCall" ->
         LET f == LookFn(D, ps, e.c[1].s) IN
         X("Call", D.fw[f], CompAll(D, ps, e.c[2].c, 1), f)
    [] OTHER -> Op(e.k, CompAll(D, ps, e.c, 1))

---------------------------------------------------------------------------
(* Phase 1: collect signals, constants, processes.                           *)
EmptyA == [sigs |-> <<>>, consts |-> <<>>, funcs |-> <<>>, raw |-> <<>>, insts |-> <<>>, gen |-> 0]
CD(A) == [T |-> [n \in DOMAIN A.consts |-> [c |-> TRUE, i |-> 0, v |-> A.consts[n].v, w |-> A.consts[n].w, hi |-> A.consts[n].hi, lo |-> A.consts[n].lo]],
          sigs |-> <<>>, fn |-> <<>>, fw |-> <<>>]
CVal(A, ps, e) == ConstVal(CD(A), ps, e)
PutF(f, n, v) == [x \in DOMAIN f \union {n} |-> IF x = n THEN v ELSE f[x]]

DeclRange(A, ps, w) == IF w.k = "None" THEN <<0, 0>> ELSE <<CVal(A, ps, w.c[1]), CVal(A, ps, w.c[2])>>
NameOf(s) == LET q == CHOOSE i \in 1..Len(s) : Ch(s, i) = "|" /\ \A j \in 1..(i - 1) : Ch(s, j) # "|" IN SubSeq(s, 1, q - 1)
Afterbar(s) == LET q == CHOOSE i \in 1..Len(s) : Ch(s, i) = "|" /\ \A j \in 1..(i - 1) : Ch(s, j) # "|" IN SubSeq(s, q + 1, Len(s))

AddSig(A, n, kind, r, dims, cmp, md) ==
  LET i == FindSig(A.sigs, n, 1)
      d == IF dims = <<>> THEN 0 ELSE IF dims[1] > dims[2] THEN dims[1] - dims[2] + 1 ELSE dims[2] - dims[1] + 1
      d0 == IF dims = <<>> THEN 0 ELSE IF dims[1] > dims[2] THEN dims[2] ELSE dims[1]
      w == IF r[1] >= r[2] THEN r[1] - r[2] + 1 ELSE r[2] - r[1] + 1
      new == [n |-> n, w |-> IF w > IW THEN IW ELSE w, hi |-> r[1], lo |-> r[2], ks |-> {kind}, d |-> d, d0 |-> d0,
              cmp |-> cmp /\ kind \notin {"Integer", "Genvar"}, own |-> cmp /\ kind # "Genvar", md |-> md] IN
  IF i = 0 THEN [A EXCEPT !.sigs = Append(@, new)]
  ELSE (* another declaration of the same name: a kind, and perhaps the range *)
       [A EXCEPT !.sigs[i] = [@ EXCEPT !.ks = @ \union {kind},
                                       !.w = IF A.sigs[i].w = 1 THEN new.w ELSE @,
                                       !.hi = IF A.sigs[i].w = 1 THEN new.hi ELSE @,
                                       !.lo = IF A.sigs[i].w = 1 THEN new.lo ELSE @]]

VarKinds == {"Input", "Output", "Inout", "Wire", "Reg", "Tri", "Integer", "Genvar"}
AddVar(A, ps, v, cmp, md) ==
  LET r == IF v.k \in {"Integer", "Genvar"} THEN <<31, 0>> ELSE DeclRange(A, ps, v.c[1])
      dm == IF v.c[2].k = "None" THEN <<>> ELSE DeclRange(A, ps, v.c[2].c[1]) IN
  AddSig(A, ps[1] \o NameOf(v.s), v.k, r, dm, cmp, md)

(* ovr: function of overridden parameters (names) of this module *)
AddParam(A, ps, v, ovr, md) ==
  LET n == NameOf(v.s)
      r == IF v.c[2].k = "None" THEN <<IW - 1, 0>> ELSE DeclRange(A, ps, v.c[2])
      w == IF r[1] >= r[2] THEN r[1] - r[2] + 1 ELSE r[2] - r[1] + 1
      x == IF v.k = "Parameter" /\ n \in DOMAIN ovr THEN ovr[n] ELSE CVal(A, ps, v.c[1])
      ww == IF w > IW THEN IW ELSE w IN
  [A EXCEPT !.consts = PutF(@, ps[1] \o n, [v |-> x % P2(ww), w |-> ww, k |-> v.k, hi |-> r[1], lo |-> r[2], rng |-> v.c[2].k # "None"])]

AddRaw(A, t, x, y, ps) == [A EXCEPT !.raw = Append(@, [t |-> t, x |-> x, y |-> y, ps |-> ps])]

RECURSIVE Items(_, _, _, _, _, _, _), Item(_, _, _, _, _, _), Module(_, _, _, _, _), GenFor(_, _, _, _, _, _, _, _)
RECURSIVE DeclAll(_, _, _, _, _, _), SubDecls(_, _, _, _, _), Insts(_, _, _, _, _, _), PortsOf(_, _, _)
RECURSIVE HeadPorts(_, _, _, _, _), Links(_, _, _, _, _, _, _), Overrides(_, _, _, _, _, _)
RECURSIVE ParamNames(_, _), BodyParams(_, _), BlockDecls(_, _, _, _)

DeclAll(A, ps, c, i, ovr, md) ==
  IF i > Len(c) THEN A
  ELSE DeclAll(LET v == c[i] IN
               IF v.k \in VarKinds THEN AddVar(A, ps, v, TRUE, md)
               ELSE IF v.k \in {"Parameter", "Localparam"} THEN AddParam(A, ps, v, ovr, md)
               ELSE IF v.k = "Assign" THEN AddRaw(A, "assign", v, v, ps) ELSE A,
               ps, c, i + 1, ovr, md)

(* local declarations of a function body, or of a named block *)
SubDecls(A, ps, c, i, md) ==
  IF i > Len(c) THEN A
  ELSE SubDecls(LET v == c[i] IN
                IF v.k = "Decl" THEN SubDecls(A, ps, v.c, 1, md)
                ELSE IF v.k \in VarKinds THEN AddVar(A, ps, v, FALSE, md) ELSE A, ps, c, i + 1, md)

FindModule(mods, name) == mods[CHOOSE i \in 1..Len(mods) : mods[i].k = "ModuleDef" /\ NameOf(mods[i].s) = name]

(* port names of a module in order, with their directions *)
HeadPorts(M, c, i, acc, u) ==
  IF i > Len(c) THEN acc
  ELSE HeadPorts(M, c, i + 1, Append(acc, IF c[i].k = "Ioport" THEN NameOf(c[i].c[1].s) ELSE NameOf(c[i].s)), u)
PortsOf(M, i, acc) == HeadPorts(M, M.c[2].c, 1, <<>>, 0)
DirOf(A, n) == LET ks == A.sigs[FindSig(A.sigs, n, 1)].ks IN
  IF "Input" \in ks THEN "Input" ELSE IF "Output" \in ks THEN "Output" ELSE "Inout"

(* names of the parameters of a module, in order *)
BodyParams(c, i) ==
  IF i > Len(c) THEN <<>>
  ELSE (IF c[i].k = "Decl" THEN BodyParams(c[i].c, 1) ELSE IF c[i].k = "Parameter" THEN <<NameOf(c[i].s)>> ELSE <<>>)
       \o BodyParams(c, i + 1)
ParamNames(M, u) == BodyParams(M.c[1].c, 1) \o BodyParams(M.c[3].c, 1)

Overrides(A, ps, names, args, i, acc) ==
  IF i > Len(args) THEN acc
  ELSE Overrides(A, ps, names, args, i + 1,
                 PutF(acc, IF args[i].s = "" THEN names[i] ELSE args[i].s, CVal(A, ps, args[i].c[1])))

(* port connections of an instance with path q, made in the scope ps *)
Links(A, ps, ports, args, i, q, ip) ==
  IF i > Len(args) THEN A
  ELSE LET pn == IF args[i].s = "" THEN ports[i] ELSE args[i].s
           e == args[i].c[1] IN
       Links(IF e.k = "None" THEN A
             ELSE IF DirOf(A, q \o pn) = "Input" THEN AddRaw(A, "in", [n |-> q \o pn], e, ps)
             ELSE AddRaw(A, "out", [n |-> q \o pn], e, ps), ps, ports, args, i + 1, q, ip)

Insts(A, mods, ps, c, i, u) ==
  IF i > Len(c) THEN A
  ELSE LET x == c[i]
           M == FindModule(mods, NameOf(x.s))
           q == ps[1] \o Afterbar(x.s) \o "."
           ovr == Overrides(A, ps, ParamNames(M, 0), x.c[2].c, 1, <<>>)
           B == Module([A EXCEPT !.insts = Append(@, [n |-> ps[1] \o Afterbar(x.s), m |-> NameOf(x.s)])],
                       mods, M, q, ovr)
           C == Links(B, ps, PortsOf(M, 1, <<>>), x.c[1].c, 1, q, 0) IN
       Insts(C, mods, ps, c, i + 1, u)

GenFor(A, mods, ps, f, var, fuel, ovr, md) ==
  LET b == f.c[4]
      i == A.consts[ps[1] \o var].v
      lab == (IF b.k = "Block" /\ b.s # "" THEN b.s ELSE "g" \o ToString(f.l)) \o "[" \o ToString(i) \o "]."
      inner == [A EXCEPT !.consts = PutF(@, ps[1] \o lab \o var, [v |-> i, w |-> IW, k |-> "Genvar", hi |-> IW - 1, lo |-> 0, rng |-> FALSE])]
      bodyps == <<ps[1] \o lab>> \o ps
      B == IF b.k = "Block" THEN Items(inner, mods, bodyps, b.c, 1, ovr, md) ELSE Item(inner, mods, bodyps, b, ovr, md)
      nx == CVal(B, ps, f.c[3].c[2]) IN
  IF fuel = 0 \/ CVal(A, ps, f.c[2]) = 0 THEN A
  ELSE GenFor([B EXCEPT !.consts = PutF(@, ps[1] \o var, [v |-> nx, w |-> IW, k |-> "Genvar", hi |-> IW - 1, lo |-> 0, rng |-> FALSE])],
              mods, ps, f, var, fuel - 1, ovr, md)

Branch(A, mods, ps, b, ovr, md) ==
  IF b.k = "None" THEN A
  ELSE IF b.k = "Block"
  THEN Items(A, mods, (IF b.s # "" THEN <<ps[1] \o b.s \o ".">> ELSE <<>>) \o ps, b.c, 1, ovr, md)
  ELSE Item(A, mods, ps, b, ovr, md)

(* declarations of the named blocks of a statement *)
BlockDecls(A, ps, s, md) ==
  LET kids(B, q) == LET RECURSIVE go(_, _)
                        go(C, i) == IF i > Len(s.c) THEN C ELSE go(BlockDecls(C, q, s.c[i], md), i + 1) IN go(B, 1) IN
  IF s.k = "Block" /\ s.s # ""
  THEN LET q == <<ps[1] \o s.s \o ".">> \o ps IN kids(SubDecls(A, q, s.c, 1, md), q)
  ELSE IF s.k \in {"Block", "IfStatement", "ForStatement", "CaseStatement", "List", "Case"} THEN kids(A, ps) ELSE A

Item(A, mods, ps, x, ovr, md) ==
  CASE x.k = "Decl" -> DeclAll(A, ps, x.c, 1, ovr, md)
    [] x.k = "Assign" -> AddRaw(A, "assign", x, x, ps)
    [] x.k \in {"Always", "AlwaysFF", "AlwaysComb", "AlwaysLatch"} ->
         AddRaw(BlockDecls(A, ps, x.c[2], md), "always", x, x, ps)
    [] x.k = "InstanceList" -> Insts(A, mods, ps, x.c[2].c, 1, 0)
    [] x.k = "Function" ->
         LET q == <<ps[1] \o x.s \o ".">> \o ps
             B == AddSig(A, ps[1] \o x.s \o "." \o x.s, "Fn", DeclRange(A, ps, x.c[1]), <<>>, FALSE, md)
             C == SubDecls(B, q, x.c[2].c, 1, md) IN
         [C EXCEPT !.funcs = Append(@, [n |-> ps[1] \o x.s, node |-> x, ps |-> q])]
    [] x.k = "GenerateStatement" -> Items(A, mods, ps, x.c, 1, ovr, md)
    [] x.k = "IfStatement" -> Branch(A, mods, ps, IF CVal(A, ps, x.c[1]) # 0 THEN x.c[2] ELSE x.c[3], ovr, md)
    [] x.k = "ForStatement" ->
         LET var == x.c[1].c[1].c[1].s
             B == [A EXCEPT !.consts = PutF(@, ps[1] \o var, [v |-> CVal(A, ps, x.c[1].c[2]), w |-> IW, k |-> "Genvar", hi |-> IW - 1, lo |-> 0, rng |-> FALSE])]
             C == GenFor(B, mods, ps, x, var, 64, ovr, md) IN C
    [] OTHER -> A
Items(A, mods, ps, c, i, ovr, md) ==
  FoldLeft(LAMBDA B, x : TLCEval(Item(B, mods, ps, x, ovr, md)), A, c)

RECURSIVE IoDecls(_, _, _, _, _)
IoDecls(A, ps, c, i, md) ==
  IF i > Len(c) THEN A
  ELSE IF c[i].k # "Ioport" THEN IoDecls(A, ps, c, i + 1, md)
  ELSE LET B == AddVar(A, ps, c[i].c[1], TRUE, md)
           C == IF c[i].c[2].k = "None" THEN B ELSE AddVar(B, ps, c[i].c[2], TRUE, md) IN
       IoDecls(C, ps, c, i + 1, md)

(* parameters declared in the body are visible to the ports of the header *)
RECURSIVE ParamsFirst(_, _, _, _, _, _)
ParamsFirst(A, ps, c, i, ovr, md) ==
  IF i > Len(c) THEN A
  ELSE IF c[i].k = "Decl" THEN ParamsFirst(ParamsFirst(A, ps, c[i].c, 1, ovr, md), ps, c, i + 1, ovr, md)
  ELSE ParamsFirst(IF c[i].k \in {"Parameter", "Localparam"} THEN AddParam(A, ps, c[i], ovr, md) ELSE A,
                   ps, c, i + 1, ovr, md)

Module(A, mods, M, path, ovr) ==
  LET md == NameOf(M.s)
      ps == <<path>>
      B == ParamsFirst(A, ps, M.c[1].c, 1, ovr, md)
      B2 == ParamsFirst(B, ps, M.c[3].c, 1, ovr, md)
      C == IoDecls(B2, ps, M.c[2].c, 1, md) IN
  Items(C, mods, ps, M.c[3].c, 1, ovr, md)

---------------------------------------------------------------------------
(* Phase 2: compile the processes.                                           *)
DesignTable(A) ==
  LET N == TLCEval(NamesOf(A)) IN
  TLCEval([n \in N \union DOMAIN A.consts |->
     IF n \in N /\ ~(n \in DOMAIN A.consts)
     THEN [c |-> FALSE, i |-> FindSig(A.sigs, n, 1), v |-> 0, w |-> 1]
     ELSE [c |-> TRUE, i |-> 0, v |-> A.consts[n].v, w |-> A.consts[n].w, hi |-> A.consts[n].hi, lo |-> A.consts[n].lo]])

Part(i, w, k, x, o, full, y) == [i |-> i, w |-> w, k |-> k, x |-> x, o |-> o, full |-> full, y |-> y]
RECURSIVE Target(_, _, _), TargetAll(_, _, _, _)
TargetAll(D, ps, c, i) == IF i > Len(c) THEN <<>> ELSE Target(D, ps, c[i]) \o TargetAll(D, ps, c, i + 1)
Target(D, ps, l) ==
  CASE l.k = "Lvalue" -> Target(D, ps, l.c[1])
    [] l.k \in {"LConcat", "Concat"} -> TargetAll(D, ps, l.c, 1)
    [] l.k = "Identifier" -> LET r == SigOf(D, ps, l) IN
         <<Part(r.i, D.sigs[r.i].w, "W", NoX, 0, D.sigs[r.i].w, NoX)>>
    [] l.k = "Pointer" ->
         IF l.c[1].k = "Pointer"
         THEN LET r == SigOf(D, ps, l.c[1].c[1])
                  g == D.sigs[r.i]
                  b == Fold(Comp(D, ps, l.c[2])) IN
              <<Part(r.i, 1, "A", Comp(D, ps, l.c[1].c[2]), g.d0, g.w, Const(Pos(g, b.v), IW))>>
         ELSE
         LET r == SigOf(D, ps, l.c[1])
             g == D.sigs[r.i]
             x == Fold(Comp(D, ps, l.c[2])) IN
         IF g.d > 0 THEN <<Part(r.i, g.w, "A", x, g.d0, g.w, NoX)>>
         ELSE IF IsConstX(x) THEN <<Part(r.i, 1, "P", Const(Pos(g, x.v), IW), 0, g.w, NoX)>>
         ELSE <<Part(r.i, 1, IF g.hi >= g.lo THEN "D" ELSE "R", x, g.lo, g.w, NoX)>>
    [] l.k = "Partselect" ->
         LET arr == l.c[1].k = "Pointer"
             r == SigOf(D, ps, IF arr THEN l.c[1].c[1] ELSE l.c[1])
             g == D.sigs[r.i]
             h == Fold(Comp(D, ps, l.c[2]))
             w == Fold(Comp(D, ps, l.c[3])) IN
         IF arr THEN <<Part(r.i, Pos(g, h.v) - Pos(g, w.v) + 1, "A", Comp(D, ps, l.c[1].c[2]), g.d0, g.w, Const(Pos(g, w.v), IW))>>
         ELSE IF IsConstX(h) /\ IsConstX(w)
         THEN <<Part(r.i, Pos(g, h.v) - Pos(g, w.v) + 1, "P", Const(Pos(g, w.v), IW), 0, g.w, NoX)>>
         ELSE <<Part(r.i, SelWidth(D, Comp(D, ps, l.c[2]), Comp(D, ps, l.c[3])), "D", Comp(D, ps, l.c[3]), g.lo, g.w, NoX)>>
    [] OTHER -> <<>>

Stmt(k, t, e, c, m) == [k |-> k, t |-> t, e |-> e, c |-> c, m |-> m]
Skip == Stmt("Skip", <<>>, <<NoX>>, <<>>, <<>>)
RECURSIVE CompS(_, _, _), CompSAll(_, _, _, _)
CompSAll(D, ps, c, i) == IF i > Len(c) THEN <<>> ELSE <<CompS(D, ps, c[i])>> \o CompSAll(D, ps, c, i + 1)
CompS(D, ps, s) ==
  CASE s.k = "BlockingSubstitution" -> Stmt("Blocking", Target(D, ps, s.c[1]), <<Comp(D, ps, s.c[2])>>, <<>>, <<>>)
    [] s.k = "NonblockingSubstitution" -> Stmt("Nonblocking", Target(D, ps, s.c[1]), <<Comp(D, ps, s.c[2])>>, <<>>, <<>>)
    [] s.k = "Block" ->
         Stmt("Seq", <<>>, <<NoX>>, CompSAll(D, (IF s.s # "" THEN <<ps[1] \o s.s \o ".">> ELSE <<>>) \o ps, s.c, 1), <<>>)
    [] s.k = "IfStatement" ->
         Stmt("If", <<>>, <<Comp(D, ps, s.c[1])>>,
              <<CompS(D, ps, s.c[2]), IF s.c[3].k = "None" THEN Skip ELSE CompS(D, ps, s.c[3])>>, <<>>)
    [] s.k \in {"CaseStatement", "CasexStatement", "CasezStatement", "UniqueCaseStatement"} ->
         LET it == s.c[2].c IN
         Stmt("Case", <<>>, <<Comp(D, ps, s.c[1])>>,
              [i \in 1..Len(it) |-> CompS(D, ps, it[i].c[2])],
              [i \in 1..Len(it) |-> IF it[i].c[1].k = "None" THEN <<>> ELSE CompAll(D, ps, it[i].c[1].c, 1)])
    [] s.k = "ForStatement" ->
         Stmt("For", <<>>, <<Comp(D, ps, s.c[2])>>,
              <<CompS(D, ps, s.c[1]), CompS(D, ps, s.c[3]), CompS(D, ps, s.c[4])>>, <<>>)
    [] s.k = "WhileStatement" ->
         Stmt("For", <<>>, <<Comp(D, ps, s.c[1])>>, <<Skip, Skip, CompS(D, ps, s.c[2])>>, <<>>)
    [] OTHER -> Skip

IsClocked(a) == \E i \in 1..Len(a.c[1].c) : a.c[1].c[i].s \in {"posedge", "negedge"}

(* A compiled process [t ("assign", "comb", "clk"), s (statement), x (source)]. *)
CompProc(D, r) ==
  CASE r.t = "assign" -> [t |-> "comb", s |-> Stmt("Blocking", Target(D, r.ps, r.x.c[1]), <<Comp(D, r.ps, r.x.c[2])>>, <<>>, <<>>), x |-> r]
    [] r.t = "in" -> LET i == D.T[r.x.n].i IN
         [t |-> "comb", s |-> Stmt("Blocking", <<Part(i, D.sigs[i].w, "W", NoX, 0, D.sigs[i].w, NoX)>>, <<Comp(D, r.ps, r.y)>>, <<>>, <<>>), x |-> r]
    [] r.t = "out" -> LET i == D.T[r.x.n].i IN
         [t |-> "comb", s |-> Stmt("Blocking", Target(D, r.ps, r.y), <<X("V", D.sigs[i].w, <<>>, i)>>, <<>>, <<>>), x |-> r]
    [] OTHER -> [t |-> IF IsClocked(r.x) THEN "clk" ELSE "comb", s |-> CompS(D, r.ps, r.x.c[2]), x |-> r]

RECURSIVE FnInputs(_, _, _, _)
FnInputs(D, ps, c, i) ==
  IF i > Len(c) THEN <<>>
  ELSE (IF c[i].k = "Decl" THEN FnInputs(D, ps, c[i].c, 1)
        ELSE IF c[i].k = "Input" THEN LET j == D.T[ps[1] \o NameOf(c[i].s)].i IN <<[i |-> j, w |-> D.sigs[j].w]>> ELSE <<>>)
       \o FnInputs(D, ps, c, i + 1)
CompFn(D, f) ==
  LET body == f.node.c[2].c IN
  [a |-> FnInputs(D, f.ps, body, 1), r |-> D.T[f.ps[1] \o f.node.s].i, b |-> CompS(D, f.ps, body[Len(body)])]

(* The elaborated design of the top module of a description *)
Elab(mods, top) ==
  LET A == TLCEval(Module([EmptyA EXCEPT !.insts = <<[n |-> top, m |-> top]>>], mods, FindModule(mods, top), top \o ".", <<>>))
      T == DesignTable(A)
      fw == [i \in 1..Len(A.funcs) |-> A.sigs[T[A.funcs[i].n \o "." \o A.funcs[i].node.s].i].w]
      fn == [n \in {A.funcs[i].n : i \in 1..Len(A.funcs)} |-> CHOOSE i \in 1..Len(A.funcs) : A.funcs[i].n = n]
      D == [T |-> T, sigs |-> A.sigs, fn |-> fn, fw |-> fw]
      F == TLCEval([i \in 1..Len(A.funcs) |-> CompFn(D, A.funcs[i])])
      P == TLCEval([i \in 1..Len(A.raw) |-> CompProc(D, A.raw[i])]) IN
  [sigs |-> A.sigs, consts |-> A.consts, T |-> T, F |-> F, P |-> P, insts |-> A.insts, top |-> top]

RECURSIVE Targets(_), TargetsAll(_, _)
Targets(s) == {s.t[j].i : j \in 1..Len(s.t)} \union TargetsAll(s.c, 1)
TargetsAll(c, i) == IF i > Len(c) THEN {} ELSE Targets(c[i]) \union TargetsAll(c, i + 1)
(* signals written by edge triggered blocks *)
StateSigs(E) == UNION {Targets(E.P[i].s) : i \in {j \in 1..Len(E.P) : E.P[j].t = "clk"}}
Driven(E) == UNION {Targets(E.P[i].s) : i \in 1..Len(E.P)}

(* acc with the updates process i makes when run from the store st *)
After(E, i, st, acc) ==
  LET S == Exec(E.P[i].s, [b |-> st, n |-> acc], E.F)
      ts == Targets(E.P[i].s) IN
  TLCEval([j \in 1..Len(acc) |-> IF j \in ts THEN (IF S.n[j] # acc[j] \/ S.b[j] = st[j] THEN S.n[j] ELSE S.b[j]) ELSE acc[j]])
RECURSIVE Settle(_, _, _)
Pass(E, st) == FoldLeftDomain(LAMBDA s, i : IF E.P[i].t = "clk" THEN s ELSE After(E, i, s, s), st, E.P)
(* the store in which all combinational processes agree *)
Settle(E, st, fuel) ==
  LET s2 == TLCEval(Pass(E, st)) IN
  IF s2 = st THEN [ok |-> TRUE, s |-> st] ELSE IF fuel = 0 THEN [ok |-> FALSE, s |-> st] ELSE Settle(E, s2, fuel - 1)

(* the store after all edge triggered processes have run once *)
ClkAll(E, st, acc) == FoldLeftDomain(LAMBDA a, i : IF E.P[i].t = "clk" THEN After(E, i, st, a) ELSE a, acc, E.P)
NextStore(E, st) == ClkAll(E, st, st)
===========================================================================
