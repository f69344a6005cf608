----------------------------- MODULE TargetGen ----------------------------
(* Assignments to concatenated targets: every list of up to Max elements, each   *)
(* a signal, a part or a bit of it (ranges descending, ascending, not from 0),   *)
(* from every form of source.  # stands for the number of the assignment.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Max
Sigs == {"p", "q", "r", "s"}
Elems == [p |-> {"p#", "p#[2:1]", "p#[3]"}, q |-> {"q#", "q#[1:2]", "q#[0]"},
          r |-> {"r#", "r#[4:3]", "r#[5]"}, s |-> {"s#"}]
Wide == {"p#", "q#", "r#"}
Sources == {"g", "h", "k", "{a, u}", "(e ? g : h)", "(e ? k : {u, a})", "(g + h)", "(~k)", "h[0:7]", "k[9:2]", "8'd165",
            "(f ? g : (e ? h : k))", "{g[7:6], h[0:2], k[4:2]}", "(k - (e ? h : g))"}
Orders == UNION {{o \in [1..n -> Sigs] : \A i, j \in 1..n : i # j => o[i] # o[j]} : n \in 1..Max}
Cat(t) == IF Len(t) = 1 THEN t[1] ELSE IF Len(t) = 2 THEN "{" \o t[1] \o ", " \o t[2] \o "}"
          ELSE "{" \o t[1] \o ", " \o t[2] \o ", " \o t[3] \o "}"
Targets == UNION {{t \in [1..Len(o) -> UNION {Elems[v] : v \in Sigs}] :
                     /\ \A i \in 1..Len(o) : t[i] \in Elems[o[i]]
                     /\ (Len(o) = 2 \/ Cardinality({i \in 1..Len(o) : t[i] \in Wide}) <= 1)} : o \in Orders}
VARIABLES x, done
Init == x \in (Targets \X Sources) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED x /\ PrintT("@" \o Cat(x[1]) \o "|" \o x[2])
Spec == Init /\ [][Next]_<<x, done>>
===========================================================================
