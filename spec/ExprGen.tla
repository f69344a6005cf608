------------------------------ MODULE ExprGen -----------------------------
(* Expressions over a, b, c, d (4 bits), e (1 bit): every operator applied to   *)
(* every pair of operand forms.  TLC enumerates them all; they are run through   *)
(* the real analyzer and judged by CheckFlow.                                    *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Deep        \* both operands are compound (otherwise at most one is)
Bin == {"+", "-", "*", "/", "%", "**", "&", "|", "^", "~^", "<<", ">>", "<<<", ">>>",
        "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&&", "||"}
Un == {"+", "-", "!", "~", "&", "|", "^", "~&", "~|", "~^"}
Forms(x, y) ==
  {"(" \o x \o " " \o o \o " " \o y \o ")" : o \in Bin}
  \union {"(" \o u \o x \o ")" : u \in Un \ {"+"}}
  \union {"(e ? " \o x \o " : " \o y \o ")", "{" \o x \o ", " \o y \o "}", "{2{" \o x \o "}}", x \o "[2:1]", x \o "[3]",
          x \o "[" \o y \o "[1:0]]", "4'd11", "3"}
L1 == Forms("a", "b")
R1 == Forms("c", "d")
Pairs == IF Deep THEN L1 \X R1 ELSE (L1 \X {"c"}) \union ({"a"} \X R1) \union {<<"a", "c">>}
Tops == {p[1] \o " " \o o \o " " \o p[2] : o \in Bin, p \in Pairs}
        \union {"{" \o p[1] \o ", " \o p[2] \o "}" : p \in Pairs}
        \union {p[1] \o " ? " \o p[2] \o " : b" : p \in Pairs}
        \union {u \o p[1] : u \in Un \ {"+"}, p \in Pairs}
        \union {"{3{" \o p[1] \o "}}" : p \in Pairs}
VARIABLES x, done
Init == x \in Tops /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED x /\ PrintT("@" \o x)
Spec == Init /\ [][Next]_<<x, done>>
===========================================================================
