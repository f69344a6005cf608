------------------------------ MODULE StmtGen -----------------------------
(***************************************************************************)
(* The bodies of always blocks over two registers p and q, built one         *)
(* construct at a time: every behaviour of this specification that closes     *)
(* all its constructs is a program.  TLC enumerates all of them up to MaxLen   *)
(* steps; they are then run through the real analyzer and judged by CheckFlow. *)
(* The n-th assignment assigns the number n, so that different assignments      *)
(* are told apart by their values.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS MaxLen,     \* number of steps
          Op,         \* assignment operator
          Reads       \* the assignments may read p and q

VARIABLES txt, open, n, len, used, key
vars == <<txt, open, n, len, used, key>>

Init == txt = "" /\ open = <<>> /\ n = 0 /\ len = 0 /\ used = {} /\ key = ""
Top == IF open = <<>> THEN "none" ELSE open[Len(open)]
Pop == SubSeq(open, 1, Len(open) - 1)
Emit(t, k) == txt' = txt \o t \o " " /\ key' = key \o k /\ len' = len + 1
Room(k) == len + Len(open) + k <= MaxLen      \* everything opened can still be closed

(* symmetric programs are built once: p and the condition c come first *)
Assign == \E t \in {"p", "q"}, v \in {"N"} \union (IF Reads THEN {"p", "q"} ELSE {}) :
  /\ t = "q" => "p" \in used
  /\ Room(1)
  /\ used' = used \union {t} /\ n' = n + 1 /\ UNCHANGED open
  /\ Emit(t \o " " \o Op \o " " \o (IF v = "N" THEN ToString(n + 1) ELSE v \o " + 4'd" \o ToString(n + 3)) \o ";", t \o v)
If == \E c \in {"c", "d"} \union (IF Reads THEN {"p[0]"} ELSE {}) :
  /\ c = "d" => "c" \in used
  /\ Room(2)
  /\ open' = Append(open, "if") /\ used' = used \union {c} /\ UNCHANGED n
  /\ Emit("if (" \o c \o ") begin", "I" \o c)
Else == /\ Top = "if" /\ Room(1)
        /\ open' = Append(Pop, "else") /\ UNCHANGED <<n, used>>
        /\ Emit("end else begin", "E")
Case == /\ Room(2)
        /\ open' = Append(open, "case0") /\ UNCHANGED <<n, used>>
        /\ Emit("case (s) 2'd0: begin", "C")
Item == /\ Top = "case0" /\ Room(1)
        /\ open' = Append(Pop, "case1") /\ UNCHANGED <<n, used>>
        /\ Emit("end 2'd2: begin", "J")
Default == /\ Top \in {"case0", "case1"} /\ Room(1)
           /\ open' = Append(Pop, "case2") /\ UNCHANGED <<n, used>>
           /\ Emit("end default: begin", "D")
Block == /\ Room(2)
         /\ open' = Append(open, "block") /\ UNCHANGED <<n, used>>
         /\ Emit("begin", "B")
End == /\ open # <<>>
       /\ open' = Pop /\ UNCHANGED <<n, used>>
       /\ Emit(IF Top \in {"case0", "case1", "case2"} THEN "end endcase" ELSE "end", "X")

Step == Assign \/ If \/ Else \/ Case \/ Item \/ Default \/ Block \/ End
Next == /\ len < MaxLen /\ Step
        /\ IF open' = <<>> /\ n' > 0 THEN PrintT("@" \o key' \o "|" \o txt') ELSE TRUE
Spec == Init /\ [][Next]_vars

(* every program can be completed within the bound *)
Balanced == Len(open) + len <= MaxLen
===========================================================================
