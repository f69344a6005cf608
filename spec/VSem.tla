------------------------------- MODULE VSem -------------------------------
(***************************************************************************)
(* Two-state bit vector semantics of expressions and statements.            *)
(*                                                                          *)
(* Both the source design (through VElab) and the data flow graphs the       *)
(* implementation produces (through VFlow) are compiled to the terms of      *)
(* this module, [k, w, c, v]: kind, self-determined width, children and a    *)
(* number (constant value, signal index, offset).  Values are naturals; the  *)
(* width of unsized constants and integers is IW instead of 32 so that every *)
(* value fits TLC's integers.                                                *)
(*                                                                          *)
(* A store is a sequence of signal values (a sequence of values for arrays). *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

IW == 30
MaxI(a, b) == IF a >= b THEN a ELSE b
P2(n) == 2 ^ (IF n < 0 THEN 0 ELSE IF n > IW THEN IW ELSE n)
X(k, w, c, v) == [k |-> k, w |-> IF w > IW THEN IW ELSE w, c |-> c, v |-> v]
Const(v, w) == X("C", w, <<>>, v)
NoX == X("N", 0, <<>>, 0)     \* no value is assigned

MulMod(a, b, w) ==
  IF a < 32768 /\ b < 32768 THEN (a * b) % P2(w)
  ELSE LET a1 == a \div 32768  a0 == a % 32768
           b1 == b \div 32768  b0 == b % 32768 IN
       ((((a1 * b0 + a0 * b1) % 32768) * 32768) + a0 * b0) % P2(w)
RECURSIVE PowMod(_, _, _)
PowMod(a, n, w) == IF n = 0 THEN 1 % P2(w) ELSE MulMod(a, PowMod(a, n - 1, w), w)
RECURSIVE Parity(_)
Parity(a) == IF a = 0 THEN 0 ELSE (a + Parity(a \div 2)) % 2

Bits(v, lo, w) == (v \div P2(lo)) % P2(w)
PutBits(old, lo, w, v) == old - Bits(old, lo, w) * P2(lo) + (v % P2(w)) * P2(lo)

ArithOps == {"Plus", "Minus", "Times", "Divide", "Mod", "And", "Or", "Xor", "Xnor"}
ShiftOps == {"Sll", "Srl", "Sla", "Sra", "Power"}
CompOps == {"LessThan", "GreaterThan", "LessEq", "GreaterEq", "Eq", "NotEq", "Eql", "NotEql"}
LogicOps == {"Land", "Lor"}
UnArith == {"Uminus", "Unot"}
UnReduce == {"Ulnot", "Uand", "Unand", "Uor", "Unor", "Uxor", "Uxnor"}

(* an operator applied to compiled operands *)
Op(k, c) ==
  X(k, IF k \in ArithOps THEN MaxI(c[1].w, c[2].w)
       ELSE IF k \in ShiftOps \union UnArith THEN c[1].w ELSE 1, c, 0)
RECURSIVE SumW(_, _)
SumW(c, i) == IF i > Len(c) THEN 0 ELSE c[i].w + SumW(c, i + 1)
Cat(c) == X("Cat", SumW(c, 1), c, 0)
Ite(a, b, d) == X("Ite", MaxI(b.w, d.w), <<a, b, d>>, 0)

RECURSIVE Eval(_, _, _, _), EvalCat(_, _, _, _, _), Exec(_, _, _), ExecAll(_, _, _, _), Assign(_, _, _, _, _, _)
RECURSIVE Args(_, _, _, _, _), Loop(_, _, _, _), CaseOf(_, _, _, _, _)

(* value of e in a context of width cw, with store st and functions F *)
Eval(e, cw0, st, F) ==
  LET k == e.k
      cw == IF cw0 > IW THEN IW ELSE MaxI(cw0, e.w)
      A == Eval(e.c[1], cw, st, F)
      B == Eval(e.c[2], cw, st, F)
      self(i) == Eval(e.c[i], e.c[i].w, st, F) IN
  CASE k = "C" -> e.v
    [] k = "V" -> st[e.v]
    [] k = "N" -> -1
    [] k = "Sl" -> LET b == Eval(e.c[1], MaxI(e.c[1].w, e.v + e.w), st, F) IN
                   IF b < 0 THEN b ELSE Bits(b, e.v, e.w)
    [] k = "Bit" -> LET p == self(2) - e.v IN
                    IF p < 0 \/ p >= e.c[1].w THEN 0 ELSE Bits(self(1), p, 1)
    [] k = "RBit" -> LET p == e.v - self(2) IN
                    IF p < 0 \/ p >= e.c[1].w THEN 0 ELSE Bits(self(1), p, 1)
    [] k = "DSl" -> LET p == self(2) - e.v IN
                    IF p < 0 \/ p >= e.c[1].w THEN 0 ELSE Bits(self(1), p, e.w)
    [] k = "M" -> LET p == self(1) - e.c[2].v + 1 IN
                  IF p < 1 \/ p > Len(st[e.v]) THEN 0 ELSE st[e.v][p]
    [] k = "Plus" -> (A + B) % P2(cw)
    [] k = "Minus" -> (A - B) % P2(cw)
    [] k = "Times" -> MulMod(A, B, cw)
    [] k = "Divide" -> IF B = 0 THEN 0 ELSE A \div B
    [] k = "Mod" -> IF B = 0 THEN 0 ELSE A % B
    [] k = "And" -> A & B
    [] k = "Or" -> A | B
    [] k = "Xor" -> A ^^ B
    [] k = "Xnor" -> P2(cw) - 1 - (A ^^ B)
    [] k = "Power" -> PowMod(A, self(2), cw)
    [] k \in {"Sll", "Sla"} -> LET n == self(2) IN IF n >= cw THEN 0 ELSE (A % P2(cw - n)) * P2(n)
    [] k \in {"Srl", "Sra"} -> LET n == self(2) IN IF n >= cw THEN 0 ELSE A \div P2(n)
    [] k \in CompOps ->
         LET m == MaxI(e.c[1].w, e.c[2].w)
             a == Eval(e.c[1], m, st, F)
             b == Eval(e.c[2], m, st, F)
             r == CASE k = "LessThan" -> a < b [] k = "GreaterThan" -> a > b
                    [] k = "LessEq" -> a <= b [] k = "GreaterEq" -> a >= b
                    [] k \in {"Eq", "Eql"} -> a = b [] OTHER -> a # b IN
         IF r THEN 1 ELSE 0
    [] k = "Land" -> IF self(1) # 0 /\ self(2) # 0 THEN 1 ELSE 0
    [] k = "Lor" -> IF self(1) # 0 \/ self(2) # 0 THEN 1 ELSE 0
    [] k = "Uminus" -> (0 - A) % P2(cw)
    [] k = "Unot" -> P2(cw) - 1 - A
    [] k = "Ulnot" -> IF self(1) = 0 THEN 1 ELSE 0
    [] k = "Uand" -> IF self(1) = P2(e.c[1].w) - 1 THEN 1 ELSE 0
    [] k = "Unand" -> IF self(1) = P2(e.c[1].w) - 1 THEN 0 ELSE 1
    [] k = "Uor" -> IF self(1) = 0 THEN 0 ELSE 1
    [] k = "Unor" -> IF self(1) = 0 THEN 1 ELSE 0
    [] k = "Uxor" -> Parity(self(1))
    [] k = "Uxnor" -> 1 - Parity(self(1))
    [] k = "Cat" -> EvalCat(e.c, 1, 0, st, F)
    [] k = "Ite" -> IF self(1) # 0 THEN Eval(e.c[2], cw, st, F) ELSE Eval(e.c[3], cw, st, F)
    [] k = "Call" ->
         LET f == F[e.v]
             s == Exec(f.b, [b |-> Args(f.a, e.c, 1, st, F), n |-> st], F) IN s.b[f.r]

EvalCat(c, i, acc, st, F) ==
  IF i > Len(c) THEN acc
  ELSE EvalCat(c, i + 1, (acc % P2(MaxI(0, IW - c[i].w))) * P2(c[i].w) + Eval(c[i], c[i].w, st, F), st, F)

(* the store in which the arguments f.a (signal index, width) are set *)
Args(a, c, i, st, F) ==
  IF i > Len(a) THEN st
  ELSE Args(a, c, i + 1, [st EXCEPT ![a[i].i] = Eval(c[i], MaxI(a[i].w, c[i].w), st, F) % P2(a[i].w)], F)

---------------------------------------------------------------------------
(* A target is a list, most significant first, of parts [i, w, k, x]:        *)
(*   k "W" whole signal, "P" the bits from position x.v, "D" the w bits from  *)
(*   the position x evaluates to minus o ("R": o minus x), "A" array element x (minus o)     *)
RECURSIVE TotalW(_, _)
TotalW(t, j) == IF j > Len(t) THEN 0 ELSE t[j].w + TotalW(t, j + 1)

PutTarget(p, old, v, st, F) ==
  CASE p.k = "W" -> v % P2(p.w)
    [] p.k = "P" -> PutBits(old, p.x.v, p.w, v)
    [] p.k \in {"D", "R"} ->
         LET x == Eval(p.x, p.x.w, st, F)
             q == IF p.k = "D" THEN x - p.o ELSE p.o - x IN
                    IF q < 0 \/ q >= p.full THEN old ELSE PutBits(old, q, p.w, v) % P2(p.full)
    [] p.k = "A" -> LET q == Eval(p.x, p.x.w, st, F) - p.o + 1 IN
                    IF q < 1 \/ q > Len(old) THEN old
                    ELSE [old EXCEPT ![q] = IF p.y.k = "N" THEN v % P2(p.w) ELSE PutBits(@, p.y.v, p.w, v)]

(* parts t[j..] of a target get value v; st: the store indices are read from *)
Assign(t, j, v, into, st, F) ==
  IF j > Len(t) THEN into
  ELSE LET rest == TotalW(t, j + 1)
           x == IF rest >= IW THEN 0 ELSE v \div P2(rest) IN
       Assign(t, j + 1, v, [into EXCEPT ![t[j].i] = PutTarget(t[j], @, x, st, F)], st, F)

(* Statements [k, t (target), e (expressions), c (statements)].  A state has  *)
(* the store b seen by reads and the store n of nonblocking updates.          *)
ExecAll(c, i, S, F) == FoldLeft(LAMBDA R, s : Exec(s, R, F), S, c)

Truth(e, S, F) == Eval(e, e.w, S.b, F) # 0
Exec(s, S, F) ==
  LET val == Eval(s.e[1], MaxI(s.e[1].w, TotalW(s.t, 1)), S.b, F) IN
  CASE s.k = "Blocking" -> [S EXCEPT !.b = Assign(s.t, 1, val, @, S.b, F)]
    [] s.k = "Nonblocking" -> [S EXCEPT !.n = Assign(s.t, 1, val, @, S.b, F)]
    [] s.k = "Bind" -> LET x == Eval(s.e[1], MaxI(s.e[1].w, TotalW(s.t, 1)), S.b, F) IN
                       IF x < 0 THEN S ELSE [S EXCEPT !.b = Assign(s.t, 1, x, @, S.b, F)]
    [] s.k = "BindN" -> LET x == Eval(s.e[1], MaxI(s.e[1].w, TotalW(s.t, 1)), S.b, F) IN
                       IF x < 0 THEN S ELSE [S EXCEPT !.n = Assign(s.t, 1, x, @, S.b, F)]
    [] s.k = "Seq" -> ExecAll(s.c, 1, S, F)
    [] s.k = "If" -> IF Truth(s.e[1], S, F) THEN Exec(s.c[1], S, F) ELSE Exec(s.c[2], S, F)
    [] s.k = "Case" -> CaseOf(s, 1, 0, S, F)
    [] s.k = "For" -> Loop(s, Exec(s.c[1], S, F), F, 200)
    [] s.k = "Skip" -> S
(* s.e[1]: selector; s.m[i]: labels of item i (<<>>: default); s.c[i]: its statement *)
CaseOf(s, i, dflt, S, F) ==
  IF i > Len(s.m) THEN (IF dflt = 0 THEN S ELSE Exec(s.c[dflt], S, F))
  ELSE IF s.m[i] = <<>> THEN CaseOf(s, i + 1, i, S, F)
  ELSE IF \E j \in 1..Len(s.m[i]) : Eval(Op("Eq", <<s.e[1], s.m[i][j]>>), 1, S.b, F) # 0
  THEN Exec(s.c[i], S, F)
  ELSE CaseOf(s, i + 1, dflt, S, F)
Loop(s, S, F, fuel) ==
  IF fuel = 0 \/ ~Truth(s.e[1], S, F) THEN S
  ELSE Loop(s, Exec(s.c[2], Exec(s.c[3], S, F), F), F, fuel - 1)
===========================================================================
