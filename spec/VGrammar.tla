----------------------------- MODULE VGrammar -----------------------------
(***************************************************************************)
(* The concrete grammar of the Verilog subset Pyverilog supports, as an     *)
(* executable specification: a token sequence either denotes exactly one    *)
(* syntax tree or is rejected.                                              *)
(*                                                                          *)
(* A token is [t |-> type, v |-> text, l |-> line, n |-> default net type   *)
(* in force]; a token sequence ends                                         *)
(* with a token of type "EOF".  A tree node is [k, s, c, l]: kind, scalar   *)
(* payload, children (one slot per role; kind "None" for an absent optional *)
(* child) and the line of the first token of the construct.                 *)
(*                                                                          *)
(* Every parsing operator P*(T, i) maps the suffix of T starting at i to a  *)
(* result [ok, n, i]: success with node n (or a tuple of nodes) and the     *)
(* position after the construct, or failure with the furthest position.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

Node(k, s, c, l) == [k |-> k, s |-> s, c |-> c, l |-> l]
NoneN == Node("None", "", <<>>, 0)
LstN(c) == Node("List", "", c, 0)
Ok(n, i) == [ok |-> TRUE, n |-> n, i |-> i]
Fail(i) == [ok |-> FALSE, n |-> NoneN, i |-> i]

Is(T, i, t) == T[i].t = t
Expect(T, i, t) == IF T[i].t = t THEN Ok(T[i].v, i + 1) ELSE Fail(i)

(* r followed by a token of type t: keeps r's node *)
Then(r, T, t) == IF ~r.ok THEN r ELSE IF T[r.i].t = t THEN Ok(r.n, r.i + 1) ELSE Fail(r.i)

UnaryKind ==
  [MINUS |-> "Uminus", LNOT |-> "Ulnot", NOT |-> "Unot", AND |-> "Uand",
   NAND |-> "Unand", OR |-> "Uor", NOR |-> "Unor", XOR |-> "Uxor", XNOR |-> "Uxnor"]

(* Binary operators with IEEE 1364 precedence (higher binds tighter); all   *)
(* binary operators associate to the left.                                  *)
BinKind ==
  [POWER |-> "Power", TIMES |-> "Times", DIVIDE |-> "Divide", MOD |-> "Mod",
   PLUS |-> "Plus", MINUS |-> "Minus", LSHIFT |-> "Sll", RSHIFT |-> "Srl",
   LSHIFTA |-> "Sla", RSHIFTA |-> "Sra", LT |-> "LessThan", GT |-> "GreaterThan",
   LE |-> "LessEq", GE |-> "GreaterEq", EQ |-> "Eq", NE |-> "NotEq", EQL |-> "Eql",
   NEL |-> "NotEql", AND |-> "And", XOR |-> "Xor", XNOR |-> "Xnor", OR |-> "Or",
   LAND |-> "Land", LOR |-> "Lor"]
BinPrec ==
  [POWER |-> 11, TIMES |-> 10, DIVIDE |-> 10, MOD |-> 10, PLUS |-> 9, MINUS |-> 9,
   LSHIFT |-> 8, RSHIFT |-> 8, LSHIFTA |-> 8, RSHIFTA |-> 8, LT |-> 7, GT |-> 7,
   LE |-> 7, GE |-> 7, EQ |-> 6, NE |-> 6, EQL |-> 6, NEL |-> 6, AND |-> 5,
   XOR |-> 4, XNOR |-> 4, OR |-> 3, LAND |-> 2, LOR |-> 1]
UnaryToks == DOMAIN UnaryKind
BinToks == DOMAIN BinKind
IntToks == {"INTNUMBER_DEC", "SIGNED_INTNUMBER_DEC", "INTNUMBER_HEX", "SIGNED_INTNUMBER_HEX",
            "INTNUMBER_OCT", "SIGNED_INTNUMBER_OCT", "INTNUMBER_BIN", "SIGNED_INTNUMBER_BIN"}

IntC(v, l) == Node("IntConst", v, <<>>, l)
FixedWidth(m, l) == Node("Width", "", <<IntC(m, l), IntC("0", l)>>, l)
IdN(name, scope, l) == Node("Identifier", name, <<scope>>, l)
ScopeOf(labels, l) == IF labels = <<>> THEN NoneN ELSE Node("IdentifierScope", "", labels, l)

---------------------------------------------------------------------------
(* Expressions *)
RECURSIVE PExpr(_, _), PBin(_, _, _), PBinRest(_, _, _), PUnary(_, _), PPrimary(_, _)
RECURSIVE PIdentFrom(_, _, _, _), PSuffix(_, _, _, _), PExprList(_, _, _)

PExpr(T, i) ==
  LET c == PBin(T, i, 1) IN
  IF ~c.ok \/ ~Is(T, c.i, "COND") THEN c
  ELSE LET a == Then(PExpr(T, c.i + 1), T, "COLON") IN
       IF ~a.ok THEN a
       ELSE LET b == PExpr(T, a.i) IN
            IF ~b.ok THEN b
            ELSE Ok(Node("Cond", "", <<c.n, a.n, b.n>>, c.n.l), b.i)

PBin(T, i, p) ==
  LET l == PUnary(T, i) IN IF ~l.ok THEN l ELSE PBinRest(T, l, p)

PBinRest(T, l, p) ==
  LET t == T[l.i].t IN
  IF t \notin BinToks \/ (t = "TIMES" /\ T[l.i + 1].t = "RPAREN") THEN l
  ELSE IF BinPrec[t] < p THEN l
  ELSE LET r == PBin(T, l.i + 1, BinPrec[t] + 1) IN
       IF ~r.ok THEN r
       ELSE PBinRest(T, Ok(Node(BinKind[t], "", <<l.n, r.n>>, l.n.l), r.i), p)

PUnary(T, i) ==
  LET t == T[i].t IN
  IF t = "PLUS" THEN PUnary(T, i + 1)
  ELSE IF t \in UnaryToks
  THEN LET r == PUnary(T, i + 1) IN
       IF ~r.ok THEN r ELSE Ok(Node(UnaryKind[t], "", <<r.n>>, T[i].l), r.i)
  ELSE PPrimary(T, i)

(* one or more comma separated expressions *)
PExprList(T, i, acc) ==
  LET e == PExpr(T, i) IN
  IF ~e.ok THEN e
  ELSE IF Is(T, e.i, "COMMA") THEN PExprList(T, e.i + 1, Append(acc, e.n))
  ELSE Ok(Append(acc, e.n), e.i)

(* a possibly empty argument list closed by a right parenthesis *)
PArgs(T, i) ==
  IF Is(T, i, "RPAREN") THEN Ok(<<>>, i + 1) ELSE Then(PExprList(T, i, <<>>), T, "RPAREN")

(* the rest of a concatenation whose first items are acc *)
PConcatRest(T, i, acc, l) ==
  LET r == IF Is(T, i, "COMMA") THEN Then(PExprList(T, i + 1, acc), T, "RBRACE")
           ELSE Then(Ok(acc, i), T, "RBRACE") IN
  IF ~r.ok THEN r ELSE Ok(Node("Concat", "", r.n, l), r.i)
(* a concatenation whose opening brace is at i *)
PConcat(T, i) ==
  LET e == PExpr(T, i + 1) IN IF ~e.ok THEN e ELSE PConcatRest(T, e.i, <<e.n>>, T[i].l)

PBrace(T, i) ==
  LET e == PExpr(T, i + 1) IN
  IF ~e.ok THEN e
  ELSE IF Is(T, e.i, "LBRACE")
  THEN LET c == Then(PConcat(T, e.i), T, "RBRACE") IN
       IF ~c.ok THEN c ELSE Ok(Node("Repeat", "", <<c.n, e.n>>, T[i].l), c.i)
  ELSE PConcatRest(T, e.i, <<e.n>>, T[i].l)

PPrimary(T, i) ==
  LET t == T[i].t IN
  CASE t = "LPAREN" -> Then(PExpr(T, i + 1), T, "RPAREN")
    [] t = "LBRACE" -> PBrace(T, i)
    [] t \in IntToks -> Ok(IntC(T[i].v, T[i].l), i + 1)
    [] t = "FLOATNUMBER" -> Ok(Node("FloatConst", T[i].v, <<>>, T[i].l), i + 1)
    [] t = "STRING_LITERAL" -> Ok(Node("StringConst", SubSeq(T[i].v, 2, Len(T[i].v) - 1), <<>>, T[i].l), i + 1)
    [] t = "DOLLER" ->
         IF ~(Is(T, i + 1, "ID") \/ (Is(T, i + 1, "SIGNED") /\ Is(T, i + 2, "LPAREN"))) THEN Fail(i + 1)
         ELSE IF ~Is(T, i + 2, "LPAREN") THEN Ok(Node("SystemCall", T[i + 1].v, <<>>, T[i].l), i + 2)
         ELSE LET a == PArgs(T, i + 3) IN
              IF ~a.ok THEN a ELSE Ok(Node("SystemCall", T[i + 1].v, a.n, T[i].l), a.i)
    [] t = "ID" -> PIdentFrom(T, i, <<>>, T[i].l)
    [] OTHER -> Fail(i)

(* identifier with its scope labels, then calls and selects *)
PIdentFrom(T, i, labels, l) ==
  IF ~Is(T, i, "ID") THEN Fail(i)
  ELSE IF Is(T, i + 1, "DOT")
  THEN PIdentFrom(T, i + 2, Append(labels, Node("IdentifierScopeLabel", T[i].v, <<NoneN>>, T[i].l)), l)
  ELSE LET id == IdN(T[i].v, ScopeOf(labels, l), l) IN
       IF Is(T, i + 1, "LPAREN")
       THEN LET a == PArgs(T, i + 2) IN
            IF ~a.ok THEN a ELSE Ok(Node("FunctionCall", "", <<id, LstN(a.n)>>, l), a.i)
       ELSE PSuffix(T, id, i + 1, labels)

PSuffix(T, base, i, labels) ==
  IF ~Is(T, i, "LBRACKET") THEN Ok(base, i)
  ELSE LET e == PExpr(T, i + 1) IN
    IF ~e.ok THEN e
    ELSE LET t == T[e.i].t IN
      IF t = "RBRACKET"
      THEN IF Is(T, e.i + 1, "DOT") /\ base.k = "Identifier"
           THEN PIdentFrom(T, e.i + 2,
                  Append(labels, Node("IdentifierScopeLabel", base.s, <<e.n>>, base.l)), base.l)
           ELSE PSuffix(T, Node("Pointer", "", <<base, e.n>>, base.l), e.i + 1, labels)
      ELSE IF t \notin {"COLON", "PLUSCOLON", "MINUSCOLON"} THEN Fail(e.i)
      ELSE LET w == Then(PExpr(T, e.i + 1), T, "RBRACKET") IN
        IF ~w.ok THEN w
        ELSE LET one == IntC("1", base.l)
                 hi == IF t = "PLUSCOLON"
                       THEN Node("Minus", "", <<Node("Plus", "", <<e.n, w.n>>, base.l), one>>, base.l)
                       ELSE e.n
                 lo == IF t = "COLON" THEN w.n
                       ELSE IF t = "PLUSCOLON" THEN e.n
                       ELSE Node("Plus", "", <<Node("Minus", "", <<e.n, w.n>>, base.l), one>>, base.l)
             IN Ok(Node("Partselect", "", <<base, hi, lo>>, base.l), w.i)

---------------------------------------------------------------------------
(* Lvalues, rvalues, delays *)
RECURSIVE PLConcatList(_, _, _), PLOne(_, _)
PLOne(T, i) ==
  IF Is(T, i, "LBRACE")
  THEN LET r == Then(PLConcatList(T, i + 1, <<>>), T, "RBRACE") IN
       IF ~r.ok THEN r ELSE Ok(Node("LConcat", "", r.n, T[i].l), r.i)
  ELSE IF ~Is(T, i, "ID") THEN Fail(i)
  ELSE LET r == PIdentFrom(T, i, <<>>, T[i].l) IN
       IF ~r.ok THEN r ELSE IF r.n.k = "FunctionCall" THEN Fail(i) ELSE r
PLConcatList(T, i, acc) ==
  LET e == PLOne(T, i) IN
  IF ~e.ok THEN e
  ELSE IF Is(T, e.i, "COMMA") THEN PLConcatList(T, e.i + 1, Append(acc, e.n))
  ELSE Ok(Append(acc, e.n), e.i)

PLvalue(T, i) == LET r == PLOne(T, i) IN
  IF ~r.ok THEN r ELSE Ok(Node("Lvalue", "", <<r.n>>, T[i].l), r.i)
PRvalue(T, i) == LET r == PExpr(T, i) IN
  IF ~r.ok THEN r ELSE Ok(Node("Rvalue", "", <<r.n>>, T[i].l), r.i)

(* optional delay control: the None node when absent *)
PDelays(T, i) ==
  IF ~Is(T, i, "DELAY") THEN Ok(NoneN, i)
  ELSE LET l == T[i].l
           mk(n, j) == Ok(Node("DelayStatement", "", <<n>>, l), j) IN
    IF Is(T, i + 1, "LPAREN")
    THEN LET e == Then(PExpr(T, i + 2), T, "RPAREN") IN IF ~e.ok THEN e ELSE mk(e.n, e.i)
    ELSE IF T[i + 1].t \in IntToks THEN mk(IntC(T[i + 1].v, l), i + 2)
    ELSE IF Is(T, i + 1, "FLOATNUMBER") THEN mk(Node("FloatConst", T[i + 1].v, <<>>, l), i + 2)
    ELSE IF Is(T, i + 1, "ID") THEN mk(IdN(T[i + 1].v, NoneN, T[i + 1].l), i + 2)
    ELSE Fail(i + 1)

(* delays lvalue (= | <=) delays rvalue : [.., kind] without the semicolon *)
PSubst(T, i, eqs) ==
  LET ld == PDelays(T, i) IN IF ~ld.ok THEN ld ELSE
  LET lv == PLvalue(T, ld.i) IN IF ~lv.ok THEN lv ELSE
  IF T[lv.i].t \notin eqs THEN Fail(lv.i) ELSE
  LET rd == PDelays(T, lv.i + 1) IN IF ~rd.ok THEN rd ELSE
  LET rv == PRvalue(T, rd.i) IN IF ~rv.ok THEN rv ELSE
  Ok(Node(IF Is(T, lv.i, "LE") THEN "NonblockingSubstitution" ELSE "BlockingSubstitution",
          "", <<lv.n, rv.n, ld.n, rd.n>>, lv.n.l), rv.i)

---------------------------------------------------------------------------
(* Sensitivity lists *)
AllSens(l) == Node("SensList", "", <<Node("Sens", "all", <<NoneN>>, l)>>, l)
PSensSig(T, i, edge) ==
  IF ~Is(T, i, "ID") THEN Fail(i) ELSE
  LET r == PIdentFrom(T, i, <<>>, T[i].l) IN
  IF ~r.ok THEN r
  ELSE IF r.n.k = "FunctionCall" \/ (edge /\ r.n.k = "Partselect") THEN Fail(i)
  ELSE r
RECURSIVE PSensItems(_, _, _, _)
PSensItems(T, i, acc, edge) ==
  LET start == IF edge THEN i + 1 ELSE i IN
  IF edge /\ T[i].t \notin {"POSEDGE", "NEGEDGE"} THEN Fail(i) ELSE
  LET r == PSensSig(T, start, edge) IN IF ~r.ok THEN r ELSE
  LET s == Node("Sens", IF edge THEN T[i].v ELSE "level", <<r.n>>, T[i].l) IN
  IF T[r.i].t \in {"SENS_OR", "COMMA"} THEN PSensItems(T, r.i + 1, Append(acc, s), edge)
  ELSE Ok(Append(acc, s), r.i)

(* i is at the "@" *)
PSens(T, i) ==
  LET l == T[i].l
      wrap(r) == IF ~r.ok THEN r ELSE Ok(Node("SensList", "", r.n, l), r.i) IN
  IF Is(T, i + 1, "TIMES") THEN Ok(AllSens(l), i + 2)
  ELSE IF Is(T, i + 1, "LPAREN") /\ Is(T, i + 2, "TIMES")
  THEN IF Is(T, i + 3, "RPAREN") THEN Ok(AllSens(l), i + 4) ELSE Fail(i + 3)
  ELSE IF Is(T, i + 1, "LPAREN")
  THEN wrap(Then(PSensItems(T, i + 2, <<>>, T[i + 2].t \in {"POSEDGE", "NEGEDGE"}), T, "RPAREN"))
  ELSE LET r == PSensSig(T, i + 1, FALSE) IN
       IF ~r.ok THEN r
       ELSE Ok(Node("SensList", "", <<Node("Sens", "level", <<r.n>>, T[i + 1].l)>>, l), r.i)
PSensOpt(T, i) == IF Is(T, i, "AT") THEN PSens(T, i) ELSE Ok(AllSens(T[i].l), i)

---------------------------------------------------------------------------
(* Declarations *)
SigToks == {"INPUT", "OUTPUT", "INOUT", "TRI", "REG", "LOGIC", "WIRE", "SIGNED", "SUPPLY0", "SUPPLY1"}
RECURSIVE PSigTypes(_, _, _)
PSigTypes(T, i, acc) == IF T[i].t \in SigToks THEN PSigTypes(T, i + 1, acc \union {T[i].t}) ELSE Ok(acc, i)

PWidthAs(T, i, k) ==
  LET a == Then(PExpr(T, i + 1), T, "COLON") IN IF ~a.ok THEN a ELSE
  LET b == Then(PExpr(T, a.i), T, "RBRACKET") IN IF ~b.ok THEN b ELSE
  Ok(Node(k, "", <<a.n, b.n>>, T[i].l), b.i)
PWidthOpt(T, i) == IF Is(T, i, "LBRACKET") THEN PWidthAs(T, i, "Width") ELSE Ok(NoneN, i)
RECURSIVE PDimsFrom(_, _, _)
PDimsFrom(T, i, acc) ==
  IF ~Is(T, i, "LBRACKET") THEN Ok(acc, i)
  ELSE LET r == PWidthAs(T, i, "Length") IN IF ~r.ok THEN r ELSE PDimsFrom(T, r.i, Append(acc, r.n))
PDimsOpt(T, i) ==
  LET r == PDimsFrom(T, i, <<>>) IN
  IF ~r.ok THEN r ELSE IF r.n = <<>> THEN Ok(NoneN, i) ELSE Ok(Node("Dimensions", "", r.n, T[i].l), r.i)

VarN(k, name, sg, w, dims, val, l) ==
  Node(k, name \o "|" \o (IF sg THEN "signed" ELSE ""), <<w, dims, val>>, l)
ParN(k, name, sg, val, w, l) ==
  Node(k, name \o "|" \o (IF sg THEN "signed" ELSE ""), <<val, w, NoneN>>, l)

If1(c, x) == IF c THEN <<x>> ELSE <<>>

(* the mutually exclusive direction / net type combinations *)
Clash(S) == \/ {"INPUT", "OUTPUT"} \subseteq S \/ {"INOUT", "OUTPUT"} \subseteq S
            \/ {"INOUT", "INPUT"} \subseteq S \/ {"INPUT", "REG"} \subseteq S
            \/ {"INOUT", "REG"} \subseteq S
TriClash(S) == {"INPUT", "TRI"} \subseteq S \/ {"OUTPUT", "TRI"} \subseteq S
HasDir(S) == S \intersect {"INPUT", "OUTPUT", "INOUT"} # {}

DeclNodes(S, name, w, dims, l) ==
  LET sg == "SIGNED" \in S
      v(k) == VarN(k, name, sg, w, dims, NoneN, l) IN
  If1("INPUT" \in S, v("Input")) \o If1("OUTPUT" \in S, v("Output")) \o If1("INOUT" \in S, v("Inout"))
  \o If1("WIRE" \in S, v("Wire")) \o If1("REG" \in S, v("Reg")) \o If1("TRI" \in S, v("Tri"))
  \o If1("LOGIC" \in S, v("Logic"))
  \o If1("SUPPLY0" \in S, ParN("Supply", name, sg, IntC("0", l), w, l))
  \o If1("SUPPLY1" \in S, ParN("Supply", name, sg, IntC("1", l), w, l))

RECURSIVE PDeclNames(_, _, _, _, _, _)
PDeclNames(T, i, S, w, acc, l) ==
  IF ~Is(T, i, "ID") THEN Fail(i) ELSE
  LET d == PDimsOpt(T, i + 1) IN IF ~d.ok THEN d ELSE
  IF d.n.k # "None" /\ ("SUPPLY0" \in S \/ "SUPPLY1" \in S) THEN Fail(i) ELSE
  LET acc2 == acc \o DeclNodes(S, T[i].v, w, d.n, T[i].l) IN
  IF Is(T, d.i, "COMMA") THEN PDeclNames(T, d.i + 1, S, w, acc2, l) ELSE Ok(acc2, d.i)

(* sigtypes [width] name {, name} ;   or   sigtypes [width] [delay] name = [delay] rvalue ; *)
PDecl(T, i) ==
  LET s == PSigTypes(T, i, {}) IN
  LET S == s.n IN
  LET w == PWidthOpt(T, s.i) IN IF ~w.ok THEN w ELSE
  IF S = {"SIGNED"} \/ Clash(S) THEN Fail(s.i)
  ELSE IF Is(T, w.i, "DELAY") \/ (Is(T, w.i, "ID") /\ Is(T, w.i + 1, "EQUALS"))
  THEN (* declaration with assignment *)
    IF S \intersect {"REG", "WIRE"} = {} THEN Fail(s.i)
    ELSE IF S \intersect {"SUPPLY0", "SUPPLY1"} # {} THEN Fail(s.i) ELSE
    LET ld == PDelays(T, w.i) IN IF ~ld.ok THEN ld ELSE
    IF ~(Is(T, ld.i, "ID") /\ Is(T, ld.i + 1, "EQUALS")) THEN Fail(ld.i) ELSE
    LET rd == IF ld.n.k = "None" THEN Ok(NoneN, ld.i + 2) ELSE PDelays(T, ld.i + 2) IN IF ~rd.ok THEN rd ELSE
    LET rv == Then(PRvalue(T, rd.i), T, "SEMICOLON") IN IF ~rv.ok THEN rv ELSE
    LET name == T[ld.i].v
        l == T[ld.i].l
        lv == Node("Lvalue", "", <<IdN(name, NoneN, l)>>, l) IN
    Ok(Node("Decl", "", DeclNodes(S \ {"TRI"}, name, w.n, NoneN, l)
                        \o <<Node("Assign", "", <<lv, rv.n, ld.n, rd.n>>, l)>>, T[i].l), rv.i)
  ELSE IF TriClash(S) THEN Fail(s.i) ELSE
    LET r == Then(PDeclNames(T, w.i, S, w.n, <<>>, T[w.i].l), T, "SEMICOLON") IN IF ~r.ok THEN r ELSE
    Ok(Node("Decl", "", r.n, T[i].l), r.i)

RECURSIVE PIntNames(_, _, _)
PIntNames(T, i, acc) ==
  IF ~Is(T, i, "ID") THEN Fail(i) ELSE
  LET v == IF Is(T, i + 1, "EQUALS") THEN PRvalue(T, i + 2) ELSE Ok(NoneN, i + 1) IN IF ~v.ok THEN v ELSE
  LET a == Append(acc, VarN("Integer", T[i].v, TRUE, FixedWidth("31", T[i].l), NoneN, v.n, T[i].l)) IN
  IF Is(T, v.i, "COMMA") THEN PIntNames(T, v.i + 1, a) ELSE Ok(a, v.i)
PIntegerDecl(T, i) ==
  LET r == Then(PIntNames(T, IF Is(T, i + 1, "SIGNED") THEN i + 2 ELSE i + 1, <<>>), T, "SEMICOLON") IN
  IF ~r.ok THEN r ELSE Ok(Node("Decl", "", r.n, T[i].l), r.i)

RECURSIVE PNames(_, _, _, _)
PNames(T, i, acc, k) ==
  IF ~Is(T, i, "ID") THEN Fail(i) ELSE
  LET a == Append(acc, VarN(k, T[i].v, FALSE, FixedWidth("31", T[i].l), NoneN, NoneN, T[i].l)) IN
  IF Is(T, i + 1, "COMMA") THEN PNames(T, i + 2, a, k) ELSE Ok(a, i + 1)
PNamesDecl(T, i, k) ==
  LET r == Then(PNames(T, i + 1, <<>>, k), T, "SEMICOLON") IN
  IF ~r.ok THEN r ELSE Ok(Node("Decl", "", r.n, T[i].l), r.i)

RECURSIVE PParamSubs(_, _, _, _, _, _)
PParamSubs(T, i, acc, k, sg, w) ==
  IF ~(Is(T, i, "ID") /\ Is(T, i + 1, "EQUALS")) THEN Fail(i) ELSE
  LET v == PRvalue(T, i + 2) IN IF ~v.ok THEN v ELSE
  LET a == Append(acc, ParN(k, T[i].v, sg, v.n, w, T[i].l)) IN
  IF Is(T, v.i, "COMMA") /\ Is(T, v.i + 1, "ID") THEN PParamSubs(T, v.i + 1, a, k, sg, w) ELSE Ok(a, v.i)
(* parameter / localparam up to but excluding the terminator; i is at the keyword *)
PParam(T, i, k) ==
  IF Is(T, i + 1, "INTEGER")
  THEN LET r == PParamSubs(T, i + 2, <<>>, k, FALSE, NoneN) IN
       IF ~r.ok THEN r ELSE Ok(Node("Decl", "", r.n, T[i].l), r.i)
  ELSE LET sg == Is(T, i + 1, "SIGNED")
           w == PWidthOpt(T, IF sg THEN i + 2 ELSE i + 1) IN IF ~w.ok THEN w ELSE
       LET r == PParamSubs(T, w.i, <<>>, k, sg, w.n) IN
       IF ~r.ok THEN r ELSE Ok(Node("Decl", "", r.n, T[i].l), r.i)
PParamDecl(T, i, k) == Then(PParam(T, i, k), T, "SEMICOLON")

---------------------------------------------------------------------------
(* Statements *)
RECURSIVE PStmt(_, _), PStmts(_, _, _, _), PCaseItems(_, _, _), PNamedStmts(_, _, _)

AllowedIn(d, ks) == \A j \in 1..Len(d.c) : d.c[j].k \in ks
BlockDeclKinds == {"Reg", "Wire", "Integer", "Real", "Parameter", "Localparam"}
FuncDeclKinds == {"Input", "Reg", "Integer"}

PNamedStmts(T, i, acc) ==
  IF Is(T, i, "END") THEN Ok(acc, i + 1) ELSE
  LET t == T[i].t
      r == IF t \in SigToks THEN PDecl(T, i)
           ELSE IF t = "INTEGER" THEN PIntegerDecl(T, i)
           ELSE IF t = "REAL" THEN PNamesDecl(T, i, "Real")
           ELSE IF t = "PARAMETER" THEN PParamDecl(T, i, "Parameter")
           ELSE IF t = "LOCALPARAM" THEN PParamDecl(T, i, "Localparam")
           ELSE PStmt(T, i) IN
  IF ~r.ok THEN r
  ELSE IF r.n.k = "Decl" /\ ~AllowedIn(r.n, BlockDeclKinds) THEN Fail(i)
  ELSE PNamedStmts(T, r.i, Append(acc, r.n))

PStmts(T, i, acc, close) ==
  IF Is(T, i, close) THEN Ok(acc, i + 1) ELSE
  LET r == PStmt(T, i) IN IF ~r.ok THEN r ELSE PStmts(T, r.i, Append(acc, r.n), close)

PCaseItems(T, i, acc) ==
  IF Is(T, i, "ENDCASE") /\ acc # <<>> THEN Ok(acc, i + 1) ELSE
  LET cnd == IF Is(T, i, "DEFAULT") THEN Ok(<<>>, i + 1) ELSE PExprList(T, i, <<>>) IN IF ~cnd.ok THEN cnd ELSE
  IF ~Is(T, cnd.i, "COLON") THEN Fail(cnd.i) ELSE
  LET s == PStmt(T, cnd.i + 1) IN IF ~s.ok THEN s ELSE
  PCaseItems(T, s.i, Append(acc, Node("Case", "",
     <<IF Is(T, i, "DEFAULT") THEN NoneN ELSE LstN(cnd.n), s.n>>,
     IF Is(T, i, "DEFAULT") THEN T[i].l ELSE cnd.n[1].l)))

PIf(T, i) ==
  IF ~Is(T, i + 1, "LPAREN") THEN Fail(i + 1) ELSE
  LET c == Then(PExpr(T, i + 2), T, "RPAREN") IN IF ~c.ok THEN c ELSE
  LET a == PStmt(T, c.i) IN IF ~a.ok THEN a ELSE
  IF ~Is(T, a.i, "ELSE") THEN Ok(Node("IfStatement", "", <<c.n, a.n, NoneN>>, T[i].l), a.i) ELSE
  LET b == PStmt(T, a.i + 1) IN IF ~b.ok THEN b ELSE
  Ok(Node("IfStatement", "", <<c.n, a.n, b.n>>, T[i].l), b.i)

(* for header: [pre, cond, post] up to and including the right parenthesis *)
PForHead(T, i) ==
  IF ~Is(T, i + 1, "LPAREN") THEN Fail(i + 1) ELSE
  LET pre == IF Is(T, i + 2, "SEMICOLON") THEN Ok(NoneN, i + 3)
             ELSE Then(PSubst(T, i + 2, {"EQUALS"}), T, "SEMICOLON") IN IF ~pre.ok THEN pre ELSE
  LET cnd == IF Is(T, pre.i, "SEMICOLON") THEN Ok(NoneN, pre.i + 1)
             ELSE Then(PExpr(T, pre.i), T, "SEMICOLON") IN IF ~cnd.ok THEN cnd ELSE
  LET post == IF Is(T, cnd.i, "RPAREN") THEN Ok(NoneN, cnd.i + 1)
              ELSE Then(PSubst(T, cnd.i, {"EQUALS"}), T, "RPAREN") IN IF ~post.ok THEN post ELSE
  Ok(<<pre.n, cnd.n, post.n>>, post.i)

PCase(T, i, k, l) ==  \* i is at the case keyword
  IF ~Is(T, i + 1, "LPAREN") THEN Fail(i + 1) ELSE
  LET c == Then(PExpr(T, i + 2), T, "RPAREN") IN IF ~c.ok THEN c ELSE
  LET r == PCaseItems(T, c.i, <<>>) IN IF ~r.ok THEN r ELSE
  Ok(Node(k, "", <<c.n, LstN(r.n)>>, l), r.i)

PStmt(T, i) ==
  LET t == T[i].t
      l == T[i].l IN
  CASE t = "IF" -> PIf(T, i)
    [] t = "CASE" -> PCase(T, i, "CaseStatement", l)
    [] t = "CASEX" -> PCase(T, i, "CasexStatement", l)
    [] t = "CASEZ" -> PCase(T, i, "CasezStatement", l)
    [] t = "UNIQUE" -> IF Is(T, i + 1, "CASE") THEN PCase(T, i + 1, "UniqueCaseStatement", l) ELSE Fail(i + 1)
    [] t = "FOR" ->
         LET h == PForHead(T, i) IN IF ~h.ok THEN h ELSE
         LET s == PStmt(T, h.i) IN IF ~s.ok THEN s ELSE
         Ok(Node("ForStatement", "", h.n \o <<s.n>>, l), s.i)
    [] t = "WHILE" ->
         IF ~Is(T, i + 1, "LPAREN") THEN Fail(i + 1) ELSE
         LET c == Then(PExpr(T, i + 2), T, "RPAREN") IN IF ~c.ok THEN c ELSE
         LET s == PStmt(T, c.i) IN IF ~s.ok THEN s ELSE
         Ok(Node("WhileStatement", "", <<c.n, s.n>>, l), s.i)
    [] t = "AT" ->
         LET s == Then(PSens(T, i), T, "SEMICOLON") IN IF ~s.ok THEN s ELSE
         Ok(Node("EventStatement", "", <<s.n>>, l), s.i)
    [] t = "SEMICOLON" -> Ok(Node("EventStatement", "", <<AllSens(l)>>, l), i + 1)
    [] t = "WAIT" ->
         IF ~Is(T, i + 1, "LPAREN") THEN Fail(i + 1) ELSE
         LET c == Then(PExpr(T, i + 2), T, "RPAREN") IN IF ~c.ok THEN c ELSE
         IF Is(T, c.i, "SEMICOLON") THEN Ok(Node("WaitStatement", "", <<c.n, NoneN>>, l), c.i + 1) ELSE
         LET s == PStmt(T, c.i) IN IF ~s.ok THEN s ELSE
         Ok(Node("WaitStatement", "", <<c.n, s.n>>, l), s.i)
    [] t = "FOREVER" ->
         LET s == PStmt(T, i + 1) IN IF ~s.ok THEN s ELSE
         Ok(Node("ForeverStatement", "", <<s.n>>, l), s.i)
    [] t = "BEGIN" ->
         IF Is(T, i + 1, "COLON")
         THEN IF ~Is(T, i + 2, "ID") THEN Fail(i + 2) ELSE
              LET r == PNamedStmts(T, i + 3, <<>>) IN
              IF ~r.ok THEN r ELSE Ok(Node("Block", T[i + 2].v, r.n, l), r.i)
         ELSE LET r == PStmts(T, i + 1, <<>>, "END") IN
              IF ~r.ok THEN r ELSE Ok(Node("Block", "", r.n, l), r.i)
    [] t = "FORK" ->
         LET r == PStmts(T, i + 1, <<>>, "JOIN") IN
         IF ~r.ok THEN r ELSE Ok(Node("ParallelBlock", "", r.n, l), r.i)
    [] t = "DOLLER" ->
         LET r == Then(PPrimary(T, i), T, "SEMICOLON") IN
         IF ~r.ok THEN r ELSE Ok(Node("SingleStatement", "", <<r.n>>, l), r.i)
    [] t = "DISABLE" ->
         IF Is(T, i + 1, "ID") /\ Is(T, i + 2, "SEMICOLON")
         THEN Ok(Node("SingleStatement", "", <<Node("Disable", T[i + 1].v, <<>>, l)>>, l), i + 3)
         ELSE Fail(i + 1)
    [] t = "DELAY" ->
         LET d == PDelays(T, i) IN
         LET e == IF d.ok /\ Is(T, d.i, "SEMICOLON") THEN Fail(i) ELSE d IN
         IF e.ok /\ (Is(T, e.i, "ID") \/ Is(T, e.i, "LBRACE"))
         THEN Then(PSubst(T, i, {"EQUALS", "LE"}), T, "SEMICOLON")
         ELSE LET x == Then(PExpr(T, i + 1), T, "SEMICOLON") IN
              IF ~x.ok THEN x
              ELSE Ok(Node("SingleStatement", "", <<Node("DelayStatement", "", <<x.n>>, l)>>, l), x.i)
    [] t \in {"ID", "LBRACE"} -> Then(PSubst(T, i, {"EQUALS", "LE"}), T, "SEMICOLON")
    [] OTHER -> Fail(i)

---------------------------------------------------------------------------
(* Functions and tasks *)
CalcToks == {"IF", "FOR", "WHILE", "CASE", "CASEX", "CASEZ", "BEGIN", "ID", "LBRACE", "DELAY"}
RECURSIVE PSubDecls(_, _, _)
PSubDecls(T, i, acc) ==
  IF T[i].t \in SigToks \/ Is(T, i, "INTEGER")
  THEN LET r == IF Is(T, i, "INTEGER") THEN PIntegerDecl(T, i) ELSE PDecl(T, i) IN
       IF ~r.ok THEN r
       ELSE IF ~AllowedIn(r.n, FuncDeclKinds) THEN Fail(i)
       ELSE PSubDecls(T, r.i, Append(acc, r.n))
  ELSE Ok(acc, i)
PSubBody(T, i, min) ==
  LET d == PSubDecls(T, i, <<>>) IN IF ~d.ok THEN d ELSE
  IF Len(d.n) < min \/ T[d.i].t \notin CalcToks THEN Fail(d.i) ELSE
  LET s == PStmt(T, d.i) IN
  IF ~s.ok THEN s
  ELSE IF s.n.k \in {"NonblockingSubstitution", "SingleStatement"} THEN Fail(d.i)
  ELSE Ok(Append(d.n, s.n), s.i)

PFunction(T, i) ==
  LET w == IF Is(T, i + 1, "LBRACKET") THEN PWidthAs(T, i + 1, "Width")
           ELSE IF Is(T, i + 1, "INTEGER") THEN Ok(FixedWidth("31", T[i].l), i + 2)
           ELSE Ok(FixedWidth("0", T[i].l), i + 1) IN IF ~w.ok THEN w ELSE
  IF ~(Is(T, w.i, "ID") /\ Is(T, w.i + 1, "SEMICOLON")) THEN Fail(w.i) ELSE
  LET b == Then(PSubBody(T, w.i + 2, 1), T, "ENDFUNCTION") IN IF ~b.ok THEN b ELSE
  Ok(Node("Function", T[w.i].v, <<w.n, LstN(b.n)>>, T[i].l), b.i)
PTask(T, i) ==
  IF ~(Is(T, i + 1, "ID") /\ Is(T, i + 2, "SEMICOLON")) THEN Fail(i + 1) ELSE
  LET b == Then(PSubBody(T, i + 3, 0), T, "ENDTASK") IN IF ~b.ok THEN b ELSE
  Ok(Node("Task", T[i + 1].v, <<LstN(b.n)>>, T[i].l), b.i)

---------------------------------------------------------------------------
(* Instances *)
RECURSIVE PNamedArgs(_, _, _, _, _), PPosArgs(_, _, _, _)
PNamedArgs(T, i, acc, k, blank) ==
  IF ~(Is(T, i, "DOT") /\ Is(T, i + 1, "ID") /\ Is(T, i + 2, "LPAREN")) THEN Fail(i) ELSE
  LET e == IF blank /\ Is(T, i + 3, "RPAREN") THEN Ok(NoneN, i + 4)
           ELSE Then(PExpr(T, i + 3), T, "RPAREN") IN IF ~e.ok THEN e ELSE
  LET a == Append(acc, Node(k, T[i + 1].v, <<e.n>>, T[i].l)) IN
  IF Is(T, e.i, "COMMA") THEN PNamedArgs(T, e.i + 1, a, k, blank) ELSE Then(Ok(a, e.i), T, "RPAREN")
PPosArgs(T, i, acc, k) ==
  LET e == PExpr(T, i) IN IF ~e.ok THEN e ELSE
  LET a == Append(acc, Node(k, "", <<e.n>>, e.n.l)) IN
  IF Is(T, e.i, "COMMA") THEN PPosArgs(T, e.i + 1, a, k) ELSE Then(Ok(a, e.i), T, "RPAREN")
(* after the left parenthesis; the first positional port may be left unconnected *)
PConnections(T, i, k, blank) ==
  IF Is(T, i, "RPAREN") THEN Ok(<<>>, i + 1)
  ELSE IF blank /\ Is(T, i, "COMMA") THEN PPosArgs(T, i + 1, <<Node(k, "", <<NoneN>>, T[i].l)>>, k)
  ELSE IF Is(T, i, "DOT") THEN PNamedArgs(T, i, <<>>, k, blank)
  ELSE PPosArgs(T, i, <<>>, k)

RECURSIVE PInstBodies(_, _, _, _, _, _, _)
PInstBodies(T, i, acc, mod, pars, named, l) ==
  LET nm == IF named THEN T[i].v ELSE ""
      a == IF named THEN PWidthOpt(T, i + 1) ELSE Ok(NoneN, i) IN
  IF named /\ ~Is(T, i, "ID") THEN Fail(i) ELSE IF ~a.ok THEN a ELSE
  IF ~Is(T, a.i, "LPAREN") THEN Fail(a.i) ELSE
  LET p == PConnections(T, a.i + 1, "PortArg", TRUE) IN IF ~p.ok THEN p ELSE
  LET acc2 == Append(acc, Node("Instance", mod \o "|" \o nm, <<LstN(p.n), LstN(pars), a.n>>, l)) IN
  IF Is(T, p.i, "COMMA") THEN PInstBodies(T, p.i + 1, acc2, mod, pars, named, l)
  ELSE Then(Ok(acc2, p.i), T, "SEMICOLON")
PInstance(T, i) ==
  LET l == T[i].l
      mod == T[i].v
      ps == IF Is(T, i + 1, "DELAY")
            THEN IF Is(T, i + 2, "LPAREN") THEN PConnections(T, i + 3, "ParamArg", FALSE) ELSE Fail(i + 2)
            ELSE Ok(<<>>, i + 1) IN IF ~ps.ok THEN ps ELSE
  IF Is(T, ps.i, "LPAREN") /\ Is(T, i + 1, "DELAY") THEN Fail(ps.i) ELSE
  LET b == PInstBodies(T, ps.i, <<>>, mod, ps.n, ~Is(T, ps.i, "LPAREN"), l) IN IF ~b.ok THEN b ELSE
  Ok(Node("InstanceList", mod, <<LstN(ps.n), LstN(b.n)>>, l), b.i)

---------------------------------------------------------------------------
(* Module items, generate constructs, modules *)
PPragma(T, i) ==
  IF ~(Is(T, i + 1, "TIMES") /\ Is(T, i + 2, "ID")) THEN Fail(i + 1) ELSE
  LET v == IF Is(T, i + 3, "EQUALS") THEN PExpr(T, i + 4) ELSE Ok(NoneN, i + 3) IN IF ~v.ok THEN v ELSE
  IF Is(T, v.i, "TIMES") /\ Is(T, v.i + 1, "RPAREN")
  THEN Ok(Node("Pragma", "", <<Node("PragmaEntry", T[i + 2].v, <<v.n>>, T[i].l)>>, T[i].l), v.i + 2)
  ELSE Fail(v.i)

PAlways(T, i, k) ==
  LET s == PSensOpt(T, i + 1) IN IF ~s.ok THEN s ELSE
  LET b == PStmt(T, s.i) IN IF ~b.ok THEN b ELSE
  Ok(Node(k, "", <<s.n, b.n>>, T[i].l), b.i)

PAssign(T, i) ==
  LET hasd == Is(T, i + 1, "DELAY")
      ld == PDelays(T, i + 1) IN IF ~ld.ok THEN ld ELSE
  LET lv == Then(PLvalue(T, ld.i), T, "EQUALS") IN IF ~lv.ok THEN lv ELSE
  LET rd == IF hasd THEN PDelays(T, lv.i) ELSE Ok(NoneN, lv.i) IN IF ~rd.ok THEN rd ELSE
  LET rv == Then(PRvalue(T, rd.i), T, "SEMICOLON") IN IF ~rv.ok THEN rv ELSE
  Ok(Node("Assign", "", <<lv.n, rv.n, ld.n, rd.n>>, T[i].l), rv.i)

PStandardItem(T, i) ==
  LET t == T[i].t IN
  CASE t \in SigToks -> PDecl(T, i)
    [] t = "INTEGER" -> PIntegerDecl(T, i)
    [] t = "REAL" -> PNamesDecl(T, i, "Real")
    [] t = "GENVAR" -> PNamesDecl(T, i, "Genvar")
    [] t = "PARAMETER" -> PParamDecl(T, i, "Parameter")
    [] t = "LOCALPARAM" -> PParamDecl(T, i, "Localparam")
    [] t = "ASSIGN" -> PAssign(T, i)
    [] t = "ALWAYS" -> PAlways(T, i, "Always")
    [] t = "ALWAYS_FF" -> PAlways(T, i, "AlwaysFF")
    [] t = "ALWAYS_COMB" -> PAlways(T, i, "AlwaysComb")
    [] t = "ALWAYS_LATCH" -> PAlways(T, i, "AlwaysLatch")
    [] t = "INITIAL" ->
         LET b == PStmt(T, i + 1) IN IF ~b.ok THEN b ELSE Ok(Node("Initial", "", <<b.n>>, T[i].l), b.i)
    [] t \in {"ID", "SENS_OR"} -> PInstance(T, i)
    [] t = "FUNCTION" -> PFunction(T, i)
    [] t = "TASK" -> PTask(T, i)
    [] t = "LPAREN" -> PPragma(T, i)
    [] OTHER -> Fail(i)

RECURSIVE PGenItem(_, _), PGenItems(_, _, _, _), PGenBody(_, _)
PGenBody(T, i) ==
  IF ~Is(T, i, "BEGIN") THEN PGenItem(T, i)
  ELSE IF Is(T, i + 1, "COLON")
  THEN IF ~Is(T, i + 2, "ID") THEN Fail(i + 2) ELSE
       LET r == PGenItems(T, i + 3, <<>>, "END") IN
       IF ~r.ok THEN r ELSE Ok(Node("Block", T[i + 2].v, r.n, T[i].l), r.i)
  ELSE LET r == PGenItems(T, i + 1, <<>>, "END") IN
       IF ~r.ok THEN r ELSE Ok(Node("Block", "", r.n, T[i].l), r.i)
PGenItem(T, i) ==
  IF Is(T, i, "IF") THEN
    IF ~Is(T, i + 1, "LPAREN") THEN Fail(i + 1) ELSE
    LET c == Then(PExpr(T, i + 2), T, "RPAREN") IN IF ~c.ok THEN c ELSE
    LET a == PGenBody(T, c.i) IN IF ~a.ok THEN a ELSE
    IF ~Is(T, a.i, "ELSE") THEN Ok(Node("IfStatement", "", <<c.n, a.n, NoneN>>, T[i].l), a.i) ELSE
    LET b == PGenBody(T, a.i + 1) IN IF ~b.ok THEN b ELSE
    Ok(Node("IfStatement", "", <<c.n, a.n, b.n>>, T[i].l), b.i)
  ELSE IF Is(T, i, "FOR") THEN
    LET h == PForHead(T, i) IN IF ~h.ok THEN h ELSE
    LET b == PGenBody(T, h.i) IN IF ~b.ok THEN b ELSE
    Ok(Node("ForStatement", "", h.n \o <<b.n>>, T[i].l), b.i)
  ELSE PStandardItem(T, i)
PGenItems(T, i, acc, close) ==
  IF Is(T, i, close) THEN Ok(acc, i + 1) ELSE
  LET r == PGenItem(T, i) IN IF ~r.ok THEN r ELSE PGenItems(T, r.i, Append(acc, r.n), close)

PItem(T, i) ==
  IF Is(T, i, "GENERATE")
  THEN LET g == PGenItems(T, i + 1, <<>>, "ENDGENERATE") IN
       IF ~g.ok THEN g ELSE Ok(Node("GenerateStatement", "", g.n, T[i].l), g.i)
  ELSE PStandardItem(T, i)
(* st = [on, r]; r is the result so far, its node the items *)
PItemStep(T, st) ==
  IF ~st.on THEN st
  ELSE IF Is(T, st.r.i, "ENDMODULE") THEN [on |-> FALSE, r |-> Ok(st.r.n, st.r.i + 1)]
  ELSE LET r == PItem(T, st.r.i) IN
       IF r.ok THEN [on |-> TRUE, r |-> Ok(Append(st.r.n, r.n), r.i)] ELSE [on |-> FALSE, r |-> r]
Ten == [i \in 1..10 |-> i]
RECURSIVE PItemsFrom(_, _)
PItemsFrom(T, st) == IF ~st.on THEN st.r ELSE PItemsFrom(T, FoldLeft(LAMBDA s, x : PItemStep(T, s), st, Ten))
PItems(T, i) == PItemsFrom(T, [on |-> TRUE, r |-> Ok(<<>>, i)])

(* #( parameter ... , parameter ... ) *)
RECURSIVE PModParams(_, _, _)
PModParams(T, i, acc) ==
  IF ~Is(T, i, "PARAMETER") THEN Fail(i) ELSE
  LET p == PParam(T, i, "Parameter") IN IF ~p.ok THEN p ELSE
  IF Is(T, p.i, "COMMA") THEN PModParams(T, p.i + 1, Append(acc, p.n))
  ELSE Then(Ok(Append(acc, p.n), p.i), T, "RPAREN")

RECURSIVE PPortNames(_, _, _), PIoports(_, _, _, _, _)
PPortNames(T, i, acc) ==
  IF ~Is(T, i, "ID") THEN Fail(i) ELSE
  LET a == Append(acc, Node("Port", T[i].v \o "|", <<NoneN, NoneN>>, T[i].l)) IN
  IF Is(T, i + 1, "COMMA") THEN PPortNames(T, i + 2, a) ELSE Then(Ok(a, i + 1), T, "RPAREN")

IoNode(S, name, w, dims, l) ==
  LET sg == "SIGNED" \in S
      v(k) == VarN(k, name, sg, w, dims, NoneN, l)
      first == IF "INPUT" \in S THEN v("Input") ELSE IF "OUTPUT" \in S THEN v("Output") ELSE v("Inout")
      second == IF "TRI" \in S THEN v("Tri") ELSE IF "REG" \in S THEN v("Reg")
                ELSE IF "WIRE" \in S THEN v("Wire")
                ELSE IF "LOGIC" \in S THEN v("Logic") ELSE NoneN IN
  Node("Ioport", "", <<first, second>>, l)

(* a port without its own direction continues the previous port declaration *)
PIoports(T, i, acc, S0, w0) ==
  LET own == T[i].t \in SigToks
      s == IF own THEN PSigTypes(T, i, {}) ELSE Ok(S0, i)
      w == IF own THEN PWidthOpt(T, s.i) ELSE Ok(w0, i) IN IF ~w.ok THEN w ELSE
  IF ~HasDir(s.n) \/ Clash(s.n) \/ TriClash(s.n) THEN Fail(i) ELSE
  IF ~Is(T, w.i, "ID") THEN Fail(w.i) ELSE
  LET d == IF own /\ w.n.k # "None" THEN PDimsOpt(T, w.i + 1) ELSE Ok(NoneN, w.i + 1) IN IF ~d.ok THEN d ELSE
  LET a == Append(acc, IoNode(s.n, T[w.i].v, w.n, d.n, T[w.i].l)) IN
  IF Is(T, d.i, "COMMA") THEN PIoports(T, d.i + 1, a, s.n, w.n) ELSE Then(Ok(a, d.i), T, "RPAREN")

PPortlist(T, i) ==
  IF Is(T, i, "SEMICOLON") THEN Ok(Node("Portlist", "", <<>>, T[i].l), i + 1)
  ELSE IF ~Is(T, i, "LPAREN") THEN Fail(i)
  ELSE LET r == IF Is(T, i + 1, "RPAREN") THEN Ok(<<>>, i + 2)
                ELSE IF Is(T, i + 1, "ID") THEN PPortNames(T, i + 1, <<>>)
                ELSE IF T[i + 1].t \in SigToks THEN PIoports(T, i + 1, <<>>, {}, NoneN)
                ELSE Fail(i + 1) IN
       LET q == Then(r, T, "SEMICOLON") IN
       IF ~q.ok THEN q ELSE Ok(Node("Portlist", "", q.n, T[i].l), q.i)

PModule(T, i) ==
  IF ~Is(T, i, "MODULE") \/ T[i + 1].t \notin {"ID", "SENS_OR"} THEN Fail(i) ELSE
  LET ps == IF ~Is(T, i + 2, "DELAY") THEN Ok(Node("Paramlist", "", <<>>, 0), i + 2)
            ELSE IF ~Is(T, i + 3, "LPAREN") THEN Fail(i + 3)
            ELSE LET r == PModParams(T, i + 4, <<>>) IN
                 IF ~r.ok THEN r ELSE Ok(Node("Paramlist", "", r.n, T[i + 2].l), r.i) IN IF ~ps.ok THEN ps ELSE
  LET po == PPortlist(T, ps.i) IN IF ~po.ok THEN po ELSE
  LET it == PItems(T, po.i) IN IF ~it.ok THEN it ELSE
  Ok(Node("ModuleDef", T[i + 1].v \o "|" \o T[i + 1].n, <<ps.n, po.n, LstN(it.n)>>, T[i].l), it.i)

RECURSIVE PDefs(_, _, _)
PDefs(T, i, acc) ==
  IF Is(T, i, "EOF") /\ acc # <<>> THEN Ok(acc, i) ELSE
  LET r == IF Is(T, i, "LPAREN") THEN PPragma(T, i) ELSE PModule(T, i) IN
  IF ~r.ok THEN r ELSE PDefs(T, r.i, Append(acc, r.n))

(* The tree denoted by a whole source text, or a failure *)
ParseSource(T) ==
  LET r == PDefs(T, 1, <<>>) IN
  IF ~r.ok THEN r
  ELSE Ok(Node("Source", "", <<Node("Description", "", r.n, T[1].l)>>, T[1].l), r.i)

---------------------------------------------------------------------------
(* Comparison of trees, with a readable account of the first difference.     *)
(* lines: also compare the line of every node, except for the kinds that have *)
(* no text of their own or share the line of the list they are declared in.   *)
NoLine == {"Port", "Parameter", "Localparam", "Rvalue", "List", "None", "EventStatement", "SensList", "Sens",
           "Input", "Output", "Inout", "Wire", "Reg", "Tri", "Integer", "Real", "Genvar", "Supply",
           "IdentifierScopeLabel", "Cond", "Case", "PortArg", "ParamArg"}
NoLineInside == {"Width", "Supply", "Length"}
RECURSIVE DiffL(_, _, _, _), DiffKids(_, _, _, _, _)
DiffL(e, a, path, lines) ==
  IF e.k # a.k THEN path \o ": expected " \o e.k \o " but got " \o a.k
  ELSE IF e.s # a.s THEN path \o "/" \o e.k \o ": expected '" \o e.s \o "' but got '" \o a.s \o "'"
  ELSE IF Len(e.c) # Len(a.c)
  THEN path \o "/" \o e.k \o ": expected " \o ToString(Len(e.c)) \o " children but got " \o ToString(Len(a.c))
  ELSE IF lines /\ e.l # a.l /\ e.k \notin NoLine \union NoLineInside
  THEN path \o "/" \o e.k \o ": expected line " \o ToString(e.l) \o " but got " \o ToString(a.l)
  ELSE DiffKids(e, a, path \o "/" \o e.k, 1, lines /\ e.k \notin NoLineInside)
DiffKids(e, a, path, i, lines) ==
  IF i > Len(e.c) THEN ""
  ELSE LET d == DiffL(e.c[i], a.c[i], path, lines) IN IF d # "" THEN d ELSE DiffKids(e, a, path, i + 1, lines)
Diff(e, a, path) == DiffL(e, a, path, FALSE)
===========================================================================
