------------------------------- MODULE FsmGen -----------------------------
(* Conditions over a state register s of two bits and inputs a, b, d (2 bits):     *)
(* every comparison of s with a constant from either side, tests and selects of s,  *)
(* inputs; negated; joined; and taken in sequence.  A guard is a pair of            *)
(* conditions x, y and a shape, the statement they control:                          *)
(*   0  if (x) s <= 1; else if (y) s <= 2;                                           *)
(*   1  if (x) begin if (y) s <= 3; else s <= 0; end                                 *)
(*   2  if (x && y) s <= 2;           3  if (x || y) s <= 1; else s <= 3;            *)
(*   4  if (!(x && y)) s <= 0;        5  if (!(x || !y)) s <= 1;                     *)
(*   6  if (x) s <= 1; if (y) s <= 0;                                                *)
EXTENDS Naturals, Sequences, TLC
Cmp == {"==", "!=", "<", "<=", ">", ">=", "===", "!=="}
K == {"0", "1", "2", "3"}
States == {"s " \o o \o " " \o k : o \in Cmp, k \in K} \union {k \o " " \o o \o " s" : o \in Cmp, k \in K}
Others == {"s", "s[0]", "s[1]", "s == d", "s < d", "&s", "|s", "s > 9", "a", "b", "d", "d == 1", "&d", "a ^ b"}
Neg(S) == S \union {"!(" \o x \o ")" : x \in S}
VARIABLES x, y, p
Init == x \in Neg(States \union Others) /\ y = "" /\ p = 9
Next == p = 9 /\ y' \in Neg(Others \union {"s == 0", "s != 1", "2 <= s", "s < 3", "s <= 1"}) /\ p' \in 0..6 /\ UNCHANGED x
        /\ PrintT("@" \o x \o "@" \o y' \o "@" \o ToString(p'))
Spec == Init /\ [][Next]_<<x, y, p>>
===========================================================================
