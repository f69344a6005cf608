---------------------------- MODULE SessionGen ----------------------------
(* Sessions: histories of operations on files and on long lived objects of       *)
(* Pyverilog.  The state is what an operation may depend on: the files, which     *)
(* objects exist and, for a code parser, the sources and macros it was made for.  *)
(* Every step is printed with the text the specification says it works on (the    *)
(* result of preprocessing), or ! if preprocessing fails; that text, and nothing  *)
(* that happened before, determines the observation (CheckSession).               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT N

(* lines: text, or a directive of the preprocessor *)
T(s) == [k |-> "t", s |-> s, v |-> ""]
D(k, s) == [k |-> k, s |-> s, v |-> ""]
Def(s, v) == [k |-> "define", s |-> s, v |-> v]
Use(p, m, q) == [k |-> "use", s |-> m, v |-> <<p, q>>]

Texts == [
  m1 |-> <<T("module TOP (CLK, RST, a, y);"), T("input CLK, RST;"), T("input [3:0] a;"), T("output reg [3:0] y;"),
           T("wire [3:0] t;"), T("SUB #(4) s0 (a, t);"), T("always @(posedge CLK) if (RST) y <= 0;"),
           T("else begin y <= t + y; if (a[0]) y <= 4'd3; end"), T("endmodule"),
           T("module SUB (i, o);"), T("parameter W = 2;"), T("input [W-1:0] i;"), T("output [W-1:0] o;"),
           T("reg [W-1:0] o; integer n;"), T("always @(*) begin o = 0; for (n=0; n<W; n=n+1) o = o + i[n]; end"), T("endmodule")>>,
  m2 |-> <<T("`timescale 1ns / 1ps"), T("`default_nettype none"), T("module TOP (a, b, y, m);"), T("input [7:0] a, b;"), T(""),
           T("output [7:0] y;"), T("output m;"), T("assign {y[0], y[7:1]} = (a[0]) ? a + b * 2 : ~b;"),
           T("function [1:0] f; input [1:0] x; begin f = x; if (x[0]) f = f + 1; end endfunction"),
           T("assign m = f(a[1:0]) == 2;"), T("endmodule"), T("`default_nettype wire")>>,
  m3 |-> <<T("module TOP (CLK, d, q);"), T("input CLK, d; output q;"), T("reg [1:0] s;"), T("assign q = i;"), T("wire i; assign i = s[1];"),
           T("genvar g;"), T("generate for (g=0; g<2; g=g+1) begin: l wire w; assign w = d ^ s[g]; end endgenerate"),
           T("always @(posedge CLK) case (s) 0: if (d) s <= 1; 1: s <= 2; default: s <= {s[0], d}; endcase"), T("endmodule")>>,
  bad |-> <<T("`default_nettype none"), T("`timescale 1ps / 1ps"), T("/* a comment"), T(" of lines */ module TOP (a);"), T("input a;"), T("assign = a;"), T("endmodule")>>,
  ill |-> <<T("`default_nettype none"), T("module TOP;"), T("wire x;"), T("assign x = 'y;"), T("endmodule")>>,
  sub |-> <<T("module LOW (p, q);"), T("input p; output q;"), T("assign q = ~p;"), T("endmodule"), Def("LOWDONE", "2")>>,
  cfg |-> <<D("ifdef", "MODE"), T("`timescale 1ns / 1ns"), D("else", ""), T("// no mode"), D("endif", ""),
            D("include", "inc.v"), T("module TOP (a, y);"), Use("input [", "W", ":0] a;"), Use("output [", "W", ":0] y;"),
            D("ifdef", "MODE"), T("LOW low (a[0], y[0]);"), D("else", ""), T("assign y = ~a;"), D("endif", ""), T("endmodule"),
            D("undef", "W"), D("ifdef", "W"), T("syntax error"), D("endif", "")>>,
  mac |-> <<Def("W", "3"), Def("MODE", "1")>>,
  lost |-> <<T("module TOP; endmodule"), D("include", "lost.v")>>]

Files0 == [x \in {"a.v", "b.v", "d/inc.v"} |-> CASE x = "a.v" -> "m1" [] x = "b.v" -> "cfg" [] OTHER -> "sub"]

(* ---------------------------------------------------------------- the preprocessor *)
Bind(d, m, v) == [x \in DOMAIN d \union {m} |-> IF x = m THEN v ELSE d[x]]
Top(s) == s[Len(s)]
RECURSIVE PP(_, _, _)
(* st: [out, def, on (stack of conditions), ok, inc (directory searched)] *)
Line(x, st, files) ==
  LET live == \A i \in 1..Len(st.on) : st.on[i]
      emit(s) == [st EXCEPT !.out = Append(@, IF live THEN s ELSE "")] IN
  CASE x.k = "t" -> emit(x.s)
    [] x.k = "use" -> [emit(x.v[1] \o (IF x.s \in DOMAIN st.def THEN st.def[x.s] ELSE "") \o x.v[2]) EXCEPT !.ok = @]
    [] x.k = "define" -> [emit("") EXCEPT !.def = IF live THEN Bind(@, x.s, x.v) ELSE @]
    [] x.k = "undef" -> [emit("") EXCEPT !.def = IF live THEN [y \in DOMAIN @ \ {x.s} |-> @[y]] ELSE @]
    [] x.k = "ifdef" -> [emit("") EXCEPT !.on = Append(@, x.s \in DOMAIN st.def)]
    [] x.k = "else" -> [emit("") EXCEPT !.on = Append(SubSeq(@, 1, Len(@) - 1), ~Top(@))]
    [] x.k = "endif" -> [emit("") EXCEPT !.on = SubSeq(@, 1, Len(@) - 1)]
    [] x.k = "include" -> IF ~live THEN emit("")
                          ELSE IF x.s = "inc.v" /\ st.inc THEN PP(Texts[files["d/inc.v"]], st, files)
                          ELSE [st EXCEPT !.ok = FALSE]
PP(ls, st, files) == IF ls = <<>> \/ ~st.ok THEN st ELSE PP(Tail(ls), Line(Head(ls), st, files), files)

RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN "" ELSE Head(ls) \o "$" \o Join(Tail(ls))
RECURSIVE Run(_, _, _)
Run(srcs, st, files) ==
  IF srcs = <<>> THEN st
  ELSE LET s == Head(srcs)
           ls == IF s[1] = "f" THEN Texts[files[s[2]]] ELSE Append(Texts[s[2]], T("")) IN  \* a string is followed by a newline
       Run(Tail(srcs), PP(ls, st, files), files)
Pre(job, files) ==
  LET st == Run(job.src, [out |-> <<>>, def |-> [m \in job.def |-> "7"], on |-> <<>>, ok |-> TRUE, inc |-> job.inc], files) IN
  IF st.ok THEN Join(st.out) ELSE "!"
Raw(t) == Join([i \in 1..Len(Texts[t]) |-> Texts[t][i].s])

Render(x) == CASE x.k = "t" -> x.s
               [] x.k = "use" -> x.v[1] \o "`" \o x.s \o x.v[2]
               [] x.k = "include" -> "`include \"" \o x.s \o "\""
               [] OTHER -> "`" \o x.k \o (IF x.s = "" THEN "" ELSE " " \o x.s) \o (IF x.v = "" THEN "" ELSE " " \o x.v)
ASSUME \A t \in DOMAIN Texts : PrintT("@=" \o t \o "|" \o Join([i \in 1..Len(Texts[t]) |-> Render(Texts[t][i])]))

(* ---------------------------------------------------------------- the operations *)
Job(src, def, inc) == [src |-> src, def |-> def, inc |-> inc]
F(x) == <<"f", x>>
S(x) == <<"s", x>>
Jobs == {Job(<<F("a.v")>>, {}, FALSE), Job(<<S("m2")>>, {}, FALSE), Job(<<S("m3")>>, {}, TRUE), Job(<<S("bad")>>, {}, FALSE),
         Job(<<S("ill")>>, {}, FALSE), Job(<<S("lost")>>, {}, TRUE),
         Job(<<F("b.v")>>, {"W"}, TRUE), Job(<<F("b.v")>>, {"W", "MODE"}, TRUE), Job(<<S("mac"), F("b.v")>>, {}, TRUE),
         Job(<<F("b.v")>>, {"W"}, FALSE), Job(<<F("a.v"), S("sub")>>, {}, FALSE), Job(<<S("sub"), F("a.v")>>, {"MODE"}, FALSE)}
Flat(s) == s[1] \o ":" \o s[2]
RECURSIVE Srcs(_)
Srcs(s) == IF s = <<>> THEN "" ELSE Flat(Head(s)) \o (IF Len(s) > 1 THEN "," ELSE "") \o Srcs(Tail(s))
Show(j) == Srcs(j.src) \o ";" \o (IF "W" \in j.def THEN "W" ELSE "-") \o (IF "MODE" \in j.def THEN "M" ELSE "-")
           \o (IF j.inc THEN "I" ELSE "-")
Queries == {"walk", "resolve", "subset", "code", "graph", "fsm", "text"}
RECURSIVE Hist(_)
Hist(h) == IF h = <<>> THEN "" ELSE Head(h) \o "|" \o Hist(Tail(h))
VARIABLES files, made, hist
vars == <<files, made, hist>>
(* made: P parser, K its job or none, G generator, A the text analyzed last *)
Init == files = Files0 /\ made = [P |-> FALSE, K |-> <<>>, G |-> FALSE, A |-> "-"] /\ hist = <<>>

Do(op, text) == hist' = Append(hist, op \o "!" \o text)
Write(f, t) == files' = [files EXCEPT ![f] = t] /\ files[f] # t /\ UNCHANGED made /\ Do("write " \o f \o " " \o t, "")
Parse(j) == Do("parse " \o Show(j), Pre(j, files)) /\ UNCHANGED <<files, made>>
NewParser == ~made.P /\ made' = [made EXCEPT !.P = TRUE] /\ UNCHANGED files /\ Do("newp", "")
UseParser(t) == made.P /\ Do("usep " \o t, Raw(t)) /\ UNCHANGED <<files, made>>
NewCode(j) == made.K = <<>> /\ made' = [made EXCEPT !.K = <<j>>] /\ UNCHANGED files /\ Do("newk " \o Show(j), "")
UseCode == made.K # <<>> /\ Do("usek", Pre(made.K[1], files)) /\ UNCHANGED <<files, made>>
Flow(j, top) == LET x == Pre(j, files) IN Do("flow " \o Show(j) \o " " \o top, x)
                /\ made' = [made EXCEPT !.A = IF x # "!" THEN top \o "$" \o x ELSE "-"] /\ UNCHANGED files
Query(q) == made.A # "-" /\ Do("ask " \o q, made.A) /\ UNCHANGED <<files, made>>
NewGen == ~made.G /\ made' = [made EXCEPT !.G = TRUE] /\ UNCHANGED files /\ Do("newg", "")
UseGen(t) == made.G /\ Do("gen " \o t, Raw(t)) /\ UNCHANGED <<files, made>>
Tokens(t) == Do("lex " \o t, Raw(t)) /\ UNCHANGED <<files, made>>

Next == /\ Len(hist) < N
        /\ \/ \E f \in {"a.v"}, t \in {"m1", "m2", "bad"} : Write(f, t)
           \/ \E j \in Jobs : Parse(j) \/ (j.def # {"W"} /\ NewCode(j))
           \/ NewParser \/ UseCode \/ NewGen
           \/ \E t \in {"m1", "m2", "m3", "bad", "ill"} : UseParser(t)
           \/ \E t \in {"m1", "m2", "m3"} : UseGen(t)
           \/ \E t \in {"m1", "m2", "bad", "ill"} : Tokens(t)
           \/ \E j \in Jobs : Len(j.src) = 1 /\ (Flow(j, "TOP") \/ (j = Job(<<F("a.v")>>, {}, FALSE) /\ (Flow(j, "SUB") \/ Flow(j, "NONE"))))
           \/ \E q \in Queries : Query(q)
        /\ IF Len(hist') = N THEN PrintT("@" \o Hist(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
(* a code parser keeps the job it was made for; files change only by writing them *)
Inv == Len(hist) <= N /\ (made.K # <<>> => made.K[1] \in Jobs)
===========================================================================
