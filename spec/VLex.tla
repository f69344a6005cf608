------------------------------- MODULE VLex -------------------------------
(***************************************************************************)
(* The lexical structure of the supported Verilog subset: what sequence of  *)
(* tokens, with line numbers, and which compiler directives a text denotes. *)
(* A text is given twice: as a string txt and as the sequence C of its      *)
(* character codes.  Tokens follow maximal munch.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

(* type, text, line and the default net type in force at the token *)
Tok(t, v, l, n) == [t |-> t, v |-> v, l |-> l, n |-> n]

NL == 10
At(C, i) == IF i <= Len(C) THEN C[i] ELSE 0
Digit(c) == c >= 48 /\ c <= 57
Alpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IdStart(c) == Alpha(c) \/ c = 95
IdChar(c) == IdStart(c) \/ Digit(c) \/ c = 36
Space(c) == c \in {0, 32, 9, 10, 11, 12, 13}
XZ(c) == c \in {120, 88, 122, 90, 63}
BinD(c) == c \in {48, 49} \/ XZ(c)
OctD(c) == (c >= 48 /\ c <= 55) \/ XZ(c)
HexD(c) == Digit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70) \/ XZ(c)
DecD(c) == Digit(c) \/ XZ(c)

RECURSIVE SkipDigits(_, _), SkipUDigits(_, _), SkipId(_, _), SkipNonSpace(_, _), ToEol(_, _)
SkipDigits(C, i) == IF Digit(At(C, i)) THEN SkipDigits(C, i + 1) ELSE i
SkipUDigits(C, i) == IF Digit(At(C, i)) \/ At(C, i) = 95 THEN SkipUDigits(C, i + 1) ELSE i
SkipId(C, i) == IF IdChar(At(C, i)) THEN SkipId(C, i + 1) ELSE i
SkipNonSpace(C, i) == IF Space(At(C, i)) THEN i ELSE SkipNonSpace(C, i + 1)
(* position after the line holding i (its newline included, when it has one) *)
ToEol(C, i) == IF i > Len(C) THEN i ELSE IF C[i] = NL THEN i + 1 ELSE ToEol(C, i + 1)

RECURSIVE SkipBase(_, _, _)
IsBaseDigit(c, b) == CASE b = "B" -> BinD(c) [] b = "O" -> OctD(c) [] b = "H" -> HexD(c) [] OTHER -> DecD(c)
SkipBase(C, i, b) == IF IsBaseDigit(At(C, i), b) \/ At(C, i) = 95 THEN SkipBase(C, i + 1, b) ELSE i

BaseOf(c) == CASE c \in {98, 66} -> "B" [] c \in {111, 79} -> "O" [] c \in {104, 72} -> "H"
               [] c \in {100, 68} -> "D" [] OTHER -> ""
BaseName(b) == CASE b = "B" -> "BIN" [] b = "O" -> "OCT" [] b = "H" -> "HEX" [] OTHER -> "DEC"

(* end of an optional exponent part starting at i, or i *)
Exponent(C, i) ==
  IF At(C, i) \in {101, 69}
  THEN LET j == IF At(C, i + 1) \in {43, 45} THEN i + 2 ELSE i + 1 IN
       IF Digit(At(C, j)) THEN SkipDigits(C, j) ELSE i
  ELSE i

(* [t, e]: type and end (exclusive) of the number at i, "" when there is none *)
Number(C, i) ==
  LET d == SkipDigits(C, i)
      sgn == At(C, d) = 39 /\ At(C, d + 1) \in {115, 83}
      bp == IF sgn THEN d + 2 ELSE d + 1
      b == BaseOf(At(C, bp)) IN
  IF At(C, d) = 39 /\ b # "" /\ IsBaseDigit(At(C, bp + 1), b)
  THEN [t |-> (IF sgn THEN "SIGNED_" ELSE "") \o "INTNUMBER_" \o BaseName(b), e |-> SkipBase(C, bp + 1, b)]
  ELSE IF At(C, d) = 46 /\ Digit(At(C, d + 1))
  THEN [t |-> "FLOATNUMBER", e |-> Exponent(C, SkipDigits(C, d + 1))]
  ELSE IF d = i THEN [t |-> "", e |-> i]
  ELSE IF At(C, d) = 46 THEN [t |-> "FLOATNUMBER", e |-> Exponent(C, d + 1)]
  ELSE IF Exponent(C, d) # d THEN [t |-> "FLOATNUMBER", e |-> Exponent(C, d)]
  ELSE [t |-> "INTNUMBER_DEC", e |-> SkipUDigits(C, i)]

(* end (exclusive) of the string literal whose opening quote is before i; 0: none *)
RECURSIVE StringEnd(_, _)
OctE(c) == c >= 48 /\ c <= 55
StringEnd(C, i) ==
  LET c == At(C, i) IN
  IF i > Len(C) \/ c = NL THEN 0
  ELSE IF c = 34 THEN i + 1
  ELSE IF c = 92
  THEN IF Alpha(At(C, i + 1)) \/ At(C, i + 1) \in {92, 63, 39, 34} \/ OctE(At(C, i + 1))
       THEN StringEnd(C, i + 2) ELSE 0
  ELSE StringEnd(C, i + 1)

(* position after the closing of a block comment, 0 when it never closes *)
RECURSIVE CommentEnd(_, _), CountNl(_, _, _)
CommentEnd(C, i) ==
  IF i >= Len(C) THEN 0 ELSE IF C[i] = 42 /\ C[i + 1] = 47 THEN i + 2 ELSE CommentEnd(C, i + 1)
CountNl(C, i, j) == IF i >= j THEN 0 ELSE (IF C[i] = NL THEN 1 ELSE 0) + CountNl(C, i + 1, j)

Reserved ==
  [module |-> "MODULE", endmodule |-> "ENDMODULE", begin |-> "BEGIN", end |-> "END",
   generate |-> "GENERATE", endgenerate |-> "ENDGENERATE", genvar |-> "GENVAR",
   function |-> "FUNCTION", endfunction |-> "ENDFUNCTION", task |-> "TASK", endtask |-> "ENDTASK",
   input |-> "INPUT", inout |-> "INOUT", output |-> "OUTPUT", tri |-> "TRI", reg |-> "REG",
   logic |-> "LOGIC", wire |-> "WIRE", integer |-> "INTEGER", real |-> "REAL", signed |-> "SIGNED",
   parameter |-> "PARAMETER", localparam |-> "LOCALPARAM", supply0 |-> "SUPPLY0", supply1 |-> "SUPPLY1",
   assign |-> "ASSIGN", always |-> "ALWAYS", always_ff |-> "ALWAYS_FF", always_comb |-> "ALWAYS_COMB",
   always_latch |-> "ALWAYS_LATCH", or |-> "SENS_OR", posedge |-> "POSEDGE", negedge |-> "NEGEDGE",
   initial |-> "INITIAL", if |-> "IF", else |-> "ELSE", for |-> "FOR", while |-> "WHILE",
   case |-> "CASE", casex |-> "CASEX", casez |-> "CASEZ", unique |-> "UNIQUE", endcase |-> "ENDCASE",
   default |-> "DEFAULT", wait |-> "WAIT", forever |-> "FOREVER", disable |-> "DISABLE",
   fork |-> "FORK", join |-> "JOIN"]
ReservedWords == DOMAIN Reserved

Op3 == [s \in {"<<<", ">>>", "===", "!=="} |->
  CASE s = "<<<" -> "LSHIFTA" [] s = ">>>" -> "RSHIFTA" [] s = "===" -> "EQL" [] OTHER -> "NEL"]
Op2 == ("||" :> "LOR") @@ ("&&" :> "LAND") @@ ("~|" :> "NOR") @@ ("~&" :> "NAND") @@ ("~^" :> "XNOR")
  @@ ("<<" :> "LSHIFT") @@ (">>" :> "RSHIFT") @@ ("==" :> "EQ") @@ ("!=" :> "NE") @@ ("<=" :> "LE")
  @@ (">=" :> "GE") @@ ("**" :> "POWER") @@ ("+:" :> "PLUSCOLON") @@ ("-:" :> "MINUSCOLON")
Op1 == ("|" :> "OR") @@ ("&" :> "AND") @@ ("^" :> "XOR") @@ ("!" :> "LNOT") @@ ("~" :> "NOT")
  @@ ("<" :> "LT") @@ (">" :> "GT") @@ ("+" :> "PLUS") @@ ("-" :> "MINUS") @@ ("*" :> "TIMES")
  @@ ("/" :> "DIVIDE") @@ ("%" :> "MOD") @@ ("?" :> "COND") @@ ("=" :> "EQUALS") @@ ("@" :> "AT")
  @@ ("," :> "COMMA") @@ (";" :> "SEMICOLON") @@ (":" :> "COLON") @@ ("." :> "DOT") @@ ("(" :> "LPAREN")
  @@ (")" :> "RPAREN") @@ ("[" :> "LBRACKET") @@ ("]" :> "RBRACKET") @@ ("{" :> "LBRACE")
  @@ ("}" :> "RBRACE") @@ ("#" :> "DELAY") @@ ("$" :> "DOLLER")
Ops3 == DOMAIN Op3
Ops2 == DOMAIN Op2
Ops1 == DOMAIN Op1

(* operator at i: [t, n] with its length, "" when there is none *)
Operator(txt, C, i) ==
  LET s3 == IF i + 2 <= Len(C) THEN SubSeq(txt, i, i + 2) ELSE ""
      s2 == IF i + 1 <= Len(C) THEN SubSeq(txt, i, i + 1) ELSE ""
      s1 == SubSeq(txt, i, i) IN
  IF s3 \in Ops3 THEN [t |-> Op3[s3], n |-> 3]
  ELSE IF s2 \in Ops2 THEN [t |-> Op2[s2], n |-> 2]
  ELSE IF s1 \in Ops1 THEN [t |-> Op1[s1], n |-> 1]
  ELSE [t |-> "", n |-> 0]

(* One step of the tokenizer at position i on line l:                       *)
(*   [k |-> "skip", i, l]          white space or comment                   *)
(*   [k |-> "dir", i, l, v]        a compiler directive line                *)
(*   [k |-> "tok", i, l, t, v]     a token                                  *)
(*   [k |-> "bad", i, l]           a character no token starts with         *)
Step(txt, C, i, l) ==
  LET c == C[i]
      skip(j) == [k |-> "skip", i |-> j, l |-> l + CountNl(C, i, j)]
      tok(t, j) == [k |-> "tok", i |-> j, l |-> l, t |-> t, v |-> SubSeq(txt, i, j - 1)]
      bad == [k |-> "bad", i |-> i, l |-> l]
      op == Operator(txt, C, i)
      oper == IF op.t = "" THEN bad ELSE tok(op.t, i + op.n) IN
  IF c \in {32, 9, NL} THEN skip(i + 1)
  ELSE IF c = 96
  THEN LET e == ToEol(C, i) IN
       [k |-> "dir", i |-> e, l |-> l + CountNl(C, i, e), v |-> SubSeq(txt, i, e - 1)]
  ELSE IF c = 47 /\ At(C, i + 1) = 47 THEN skip(ToEol(C, i))
  ELSE IF c = 47 /\ At(C, i + 1) = 42 /\ CommentEnd(C, i + 2) # 0 THEN skip(CommentEnd(C, i + 2))
  ELSE IF c = 34 THEN LET e == StringEnd(C, i + 1) IN IF e = 0 THEN bad ELSE tok("STRING_LITERAL", e)
  ELSE IF IdStart(c)
  THEN LET e == SkipId(C, i + 1)
           w == SubSeq(txt, i, e - 1) IN
       tok(IF w \in ReservedWords THEN Reserved[w] ELSE "ID", e)
  ELSE IF c = 92
  THEN IF Space(At(C, i + 1)) THEN bad ELSE tok("ID", SkipNonSpace(C, i + 1))
  ELSE IF Digit(c) \/ c = 39 \/ c = 46
  THEN LET n == Number(C, i) IN IF n.t # "" THEN tok(n.t, n.e) ELSE oper
  ELSE oper

(* the default net type after a directive line v *)
RECURSIVE SkipBlank(_, _), SkipAlnum(_, _)
SkipBlank(v, j) == IF j <= Len(v) /\ SubSeq(v, j, j) \in {" ", "\t"} THEN SkipBlank(v, j + 1) ELSE j
SkipAlnum(v, j) == IF j > Len(v) \/ SubSeq(v, j, j) \in {" ", "\t", "\n", "/", ";"} THEN j ELSE SkipAlnum(v, j + 1)
NetTypeAfter(v, n) ==
  IF Len(v) < 17 \/ SubSeq(v, 1, 16) # "`default_nettype" THEN n
  ELSE LET b == SkipBlank(v, 17)
           e == SkipAlnum(v, b) IN
       IF b = 17 \/ e = b THEN n ELSE SubSeq(v, b, e - 1)

(* The tokenizer run over a text: a state [on, ok, i, l, n, toks, dirs] steps until the end of
   the text or a bad character.  (Folds over short sequences keep the evaluation depth of TLC
   small, on which the cost of a step depends.) *)
LexStep(txt, C, st) ==
  IF ~st.on THEN st
  ELSE IF st.i > Len(C) THEN [st EXCEPT !.on = FALSE]
  ELSE LET s == Step(txt, C, st.i, st.l) IN
    CASE s.k = "skip" -> [st EXCEPT !.i = s.i, !.l = s.l]
      [] s.k = "dir" -> [st EXCEPT !.i = s.i, !.l = s.l, !.n = NetTypeAfter(s.v, @), !.dirs = Append(@, [l |-> st.l, v |-> s.v])]
      [] s.k = "tok" -> [st EXCEPT !.i = s.i, !.l = s.l, !.toks = Append(@, Tok(s.t, s.v, st.l, st.n))]
      [] OTHER -> [st EXCEPT !.on = FALSE, !.ok = FALSE]
Hundred == [i \in 1..100 |-> i]
RECURSIVE LexFrom(_, _, _)
LexFrom(txt, C, st) ==
  IF ~st.on THEN st
  ELSE LexFrom(txt, C, FoldLeft(LAMBDA s, x : LexStep(txt, C, s), st, Hundred))
(* [ok, toks, dirs, l]; on failure l is the line of the offending character *)
Lex(txt, C) ==
  LET st == LexFrom(txt, C, [on |-> TRUE, ok |-> TRUE, i |-> 1, l |-> 1, n |-> "wire", toks |-> <<>>, dirs |-> <<>>]) IN
  [ok |-> st.ok, toks |-> st.toks, dirs |-> st.dirs, l |-> st.l]

(* for the grammar, which looks a few tokens ahead *)
Padded(toks, l) == toks \o [i \in 1..4 |-> Tok("EOF", "", l, "wire")]
===========================================================================
