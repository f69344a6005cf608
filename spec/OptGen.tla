------------------------------- MODULE OptGen -----------------------------
(* Expressions on which an optimizer has something to do: the same operand     *)
(* twice, an operand and its complement, neutral and dominating constants,       *)
(* comparisons of one signal with constants, powers of two, constant             *)
(* subexpressions, adjacent selects, parts of concatenations.                     *)
(* a, b, c, d have 4 bits, e and f one bit, u is [0:3], v is [4:1].               *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Part
Bin == {"+", "-", "*", "/", "%", "&", "|", "^", "~^", "<<", ">>", "<<<", ">>>",
        "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&&", "||"}
Un == {"-", "!", "~", "&", "|", "^", "~&", "~|", "~^"}
Atoms == {"a", "e", "(~a)", "(~e)", "(!a)", "(!e)", "4'd0", "4'd1", "4'd8", "4'd15", "1'd0", "1'd1",
          "(a == 4'd3)", "(4'd3 == a)", "(a == 4'd5)", "(!(a == 4'd3))", "(!(4'd3 == a))", "(e ? a : b)", "(a & b)", "K", "L"}
Logic == {"a", "(!a)", "e", "(!e)", "(~e)", "(a == 4'd3)", "(!(a == 4'd3))", "(a == 4'd5)"}
LogOp == {"&&", "||"}
Sel == {"a[3:2]", "a[1:0]", "a[3]", "a[2]", "a[2:1]", "a[0]", "u[0:1]", "u[2:3]", "u[0]", "u[1]", "u[2]", "v[4:3]", "v[2:1]", "v[4]", "v[3]", "v[1]",
        "4'd9", "2'd2", "K[2:1]", "L[3]", "b"}
Consts == {"4'd3", "4'd5", "2'd2", "K", "L", "1'd1", "L[4:3]", "K[1]", "8", "4'd15", "1'd0"}
Exprs ==
  CASE Part = "pairs" -> {x \o " " \o o \o " " \o y : x \in Atoms, o \in Bin, y \in Atoms}
    [] Part = "logic" -> {"(" \o x \o " " \o o \o " " \o y \o ") " \o p \o " (" \o z \o " " \o q \o " " \o w \o ")" :
                          x \in Logic, y \in Logic, z \in Logic, w \in {"a", "(!a)", "e", "(a == 4'd5)"}, o \in LogOp, p \in LogOp, q \in LogOp}
    [] Part = "selects" -> {"{" \o x \o ", " \o y \o "}" : x \in Sel, y \in Sel}
                           \union {"{" \o x \o ", " \o y \o ", " \o z \o "}" : x \in Sel, y \in Sel, z \in {"a[0]", "b", "2'd1", "u[3]", "a[1:0]"}}
                           \union {"{{" \o x \o ", " \o y \o "}, " \o x \o "}" : x \in Sel, y \in Sel}
                           \union {"{(e ? " \o x \o " : " \o x \o "), (e ? " \o y \o " : b)}" : x \in Sel, y \in {"a", "c", "4'd7"}}
    [] Part = "consts" -> {u \o "(" \o x \o ")" : u \in Un, x \in Consts}
                          \union {"(" \o x \o " " \o o \o " " \o y \o ") ? a : b" : x \in Consts, o \in Bin, y \in Consts}
                          \union {x \o " " \o o \o " " \o y : x \in Consts, o \in Bin, y \in Consts}
                          \union {"(e ? " \o u \o x \o " : a) " \o o \o " " \o x : x \in Consts, u \in {"!", "&", "^"}, o \in {"&", "|", "+"}}
VARIABLES x, done
Init == x \in Exprs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED x /\ PrintT("@" \o x)
Spec == Init /\ [][Next]_<<x, done>>
===========================================================================
