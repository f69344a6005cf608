From 8f64a8d864ef005447a88e12a67b1de2fbd9e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 01/62] fix: a port without a direction continues the previous
 port declaration

---
 pyverilog/vparser/parser.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 0de0264..e5b6142 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -339,26 +339,15 @@ class VerilogParser(object):
     def p_ioports(self, p):
         'ioports : ioports COMMA ioport'
         if isinstance(p[3], str):
-            t = None
-            for r in reversed(p[1]):
-                if isinstance(r.first, Input):
-                    t = Ioport(Input(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and r.second is None:
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and isinstance(r.second, Reg):
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               Reg(name=p[3], width=r.first.width,
-                                   lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Inout):
-                    t = Ioport(Inout(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
+            # a bare name continues the declaration of the previous port
+            prev = p[1][-1]
+            first = prev.first.__class__(name=p[3], width=prev.first.width,
+                                         signed=prev.first.signed, lineno=p.lineno(3))
+            second = None
+            if prev.second is not None:
+                second = prev.second.__class__(name=p[3], width=prev.second.width,
+                                               signed=prev.second.signed, lineno=p.lineno(3))
+            t = Ioport(first, second, lineno=p.lineno(3))
             p[0] = p[1] + (t,)
         else:
             p[0] = p[1] + (p[3],)
-- 
2.43.0


From 72e8f6d361051d75cc981276a9ed30260ac39f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 02/62] fix: unique case keeps its selector and items

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index e5b6142..f6291e4 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1681,7 +1681,7 @@ class VerilogParser(object):
 
     def p_unique_case_statement(self, p):
         'unique_case_statement : UNIQUE CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE'
-        p[0] = UniqueCaseStatement(p[3], p[5], lineno=p.lineno(1))
+        p[0] = UniqueCaseStatement(p[4], p[6], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(7)
 
-- 
2.43.0


From ab22ed18f422dd607171e584464b9d0ea033f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 03/62] fix: integer signed and real declarations keep their
 names

---
 pyverilog/vparser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index f6291e4..13be869 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -689,7 +689,7 @@ class VerilogParser(object):
                                  lineno=p.lineno(3)),
                            signed=True,
                            value=rvalue,
-                           lineno=p.lineno(3)) for rname, rvalue in p[2]]
+                           lineno=p.lineno(3)) for rname, rvalue in p[3]]
         p[0] = Decl(tuple(intlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
@@ -716,7 +716,7 @@ class VerilogParser(object):
     # Real
     def p_realdecl(self, p):
         'realdecl : REAL realnamelist SEMICOLON'
-        reallist = [Real(p[1],
+        reallist = [Real(r,
                          Width(msb=IntConst('31', lineno=p.lineno(2)),
                                lsb=IntConst('0', lineno=p.lineno(2)),
                                lineno=p.lineno(2)),
-- 
2.43.0


From 29a4a968faf21212f70cc5c693e7ce7432c6855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 04/62] fix: net declaration assignment with delays keeps its
 name

---
 pyverilog/vparser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 13be869..3e78f38 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -644,7 +644,7 @@ class VerilogParser(object):
         'declassign : sigtypes declassign_element SEMICOLON'
         decllist = self.create_declassign(
             p[1], p[2][0], p[2][1], lineno=p.lineno(2))
-        p[0] = Decl(decllist, lineno=p.lineno(1))
+        p[0] = Decl(tuple(decllist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_declassign_width(self, p):
@@ -663,9 +663,9 @@ class VerilogParser(object):
 
     def p_declassign_element_delay(self, p):
         'declassign_element : delays ID EQUALS delays rvalue'
-        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(1)), lineno=p.lineno(2)),
+        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(2)), lineno=p.lineno(2)),
                         p[5], p[1], p[4], lineno=p.lineno(2))
-        p[0] = (p[1], assign)
+        p[0] = (p[2], assign)
         p.set_lineno(0, p.lineno(2))
 
     # Integer
-- 
2.43.0


From 879e9d04e0327a93994a9f86c8bd37603697d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 05/62] fix: indexed part selects denote the selected bits

---
 pyverilog/vparser/parser.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 3e78f38..65df9b4 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -838,6 +838,16 @@ class VerilogParser(object):
         p[0].end_lineno = p.lineno(7)
 
     # --------------------------------------------------------------------------
+    # var[base +: width] is var[base + width - 1 : base]
+    # var[base -: width] is var[base : base - width + 1]
+    def create_indexed_partselect(self, var, base, op, width, lineno=0):
+        one = IntConst('1', lineno=lineno)
+        if op == '+:':
+            msb = Minus(Plus(base, width, lineno=lineno), one, lineno=lineno)
+            return Partselect(var, msb, base, lineno=lineno)
+        lsb = Plus(Minus(base, width, lineno=lineno), one, lineno=lineno)
+        return Partselect(var, base, lsb, lineno=lineno)
+
     def p_lpartselect_lpointer(self, p):
         'lpartselect : pointer LBRACKET expression COLON expression RBRACKET'
         p[0] = Partselect(p[1], p[3], p[5], lineno=p.lineno(1))
@@ -845,12 +855,12 @@ class VerilogParser(object):
 
     def p_lpartselect_lpointer_plus(self, p):
         'lpartselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p[1], p[3], '+:', p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_lpointer_minus(self, p):
         'lpartselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p[1], p[3], '-:', p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect(self, p):
@@ -860,12 +870,12 @@ class VerilogParser(object):
 
     def p_lpartselect_plus(self, p):
         'lpartselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p[1], p[3], '+:', p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_minus(self, p):
         'lpartselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p[1], p[3], '-:', p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpointer(self, p):
@@ -1206,14 +1216,12 @@ class VerilogParser(object):
 
     def p_partselect_plus(self, p):
         'partselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p[1], p[3], '+:', p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_minus(self, p):
         'partselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p[1], p[3], '-:', p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer(self, p):
@@ -1223,14 +1231,12 @@ class VerilogParser(object):
 
     def p_partselect_pointer_plus(self, p):
         'partselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p[1], p[3], '+:', p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer_minus(self, p):
         'partselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p[1], p[3], '-:', p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_pointer(self, p):
-- 
2.43.0


From d52bb01f905597c900d16d74e4e4e0d4fee3fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 06/62] fix: every statement records its last line

---
 pyverilog/vparser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 65df9b4..fe4264b 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1564,11 +1564,13 @@ class VerilogParser(object):
         'parallelblock : FORK block_statements JOIN'
         p[0] = ParallelBlock(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(3)
 
     def p_parallelblock_empty(self, p):
         'parallelblock : FORK JOIN'
         p[0] = ParallelBlock((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_if_statement(self, p):
@@ -1620,6 +1622,7 @@ class VerilogParser(object):
         'for_statement : FOR LPAREN forpre forcond forpost RPAREN forcontent_statement'
         p[0] = ForStatement(p[3], p[4], p[5], p[7], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[7].end_lineno
 
     def p_forpre(self, p):
         'forpre : blocking_substitution'
@@ -1660,6 +1663,7 @@ class VerilogParser(object):
         'while_statement : WHILE LPAREN cond RPAREN whilecontent_statement'
         p[0] = WhileStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno
 
     def p_whilecontent_statement(self, p):
         'whilecontent_statement : basic_statement'
@@ -1742,12 +1746,14 @@ class VerilogParser(object):
         'event_statement : senslist SEMICOLON'
         p[0] = EventStatement(p[1], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_wait_statement(self, p):
         'wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement'
         p[0] = WaitStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(4) if p[5] is None else p[5].end_lineno
 
     def p_waitcontent_statement(self, p):
         'waitcontent_statement : basic_statement'
@@ -1764,6 +1770,7 @@ class VerilogParser(object):
         'forever_statement : FOREVER basic_statement'
         p[0] = ForeverStatement(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[2].end_lineno
 
     # --------------------------------------------------------------------------
     def p_instance(self, p):
-- 
2.43.0


From f80ffda8857161911aaf4685fe8cadbe79dc723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 07/62] fix: an empty slot before a comma in an argument list
 is not dropped

---
 pyverilog/vparser/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index fe4264b..625b1a5 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1876,6 +1876,8 @@ class VerilogParser(object):
 
     def p_param_args(self, p):
         'param_args : param_args COMMA param_arg'
+        if not p[1]:
+            self._raise_error(p.slice[2])
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
@@ -1907,6 +1909,8 @@ class VerilogParser(object):
 
     def p_instance_ports_list(self, p):
         'instance_ports_list : instance_ports_list COMMA instance_port_list'
+        if not p[1]:  # the first port is left unconnected
+            p[1] = (PortArg(None, None, lineno=p.lineno(2)),)
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
@@ -2070,6 +2074,8 @@ class VerilogParser(object):
 
     def p_sysargs(self, p):
         'sysargs : sysargs COMMA sysarg'
+        if not p[1]:
+            self._raise_error(p.slice[2])
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
@@ -2162,6 +2168,8 @@ class VerilogParser(object):
 
     def p_func_args(self, p):
         'func_args : func_args COMMA expression'
+        if not p[1]:
+            self._raise_error(p.slice[2])
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
-- 
2.43.0


From 46f58e15d5a44e0b0e517db1ece5796cc9805b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 08/62] fix: signed binary literals may start with an upper
 case X

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8fe6628..58587a3 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -181,7 +181,7 @@ class VerilogLexer(object):
     t_DOLLER = r'\$'
 
     bin_number = '[0-9]*\'[bB][0-1xXzZ?][0-1xXzZ?_]*'
-    signed_bin_number = '[0-9]*\'[sS][bB][0-1xZzZ?][0-1xXzZ?_]*'
+    signed_bin_number = '[0-9]*\'[sS][bB][0-1xXzZ?][0-1xXzZ?_]*'
     octal_number = '[0-9]*\'[oO][0-7xXzZ?][0-7xXzZ?_]*'
     signed_octal_number = '[0-9]*\'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*'
     hex_number = '[0-9]*\'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-- 
2.43.0


From 04aff6c08124c7c64dd0185582035c51ff3d4c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 09/62] fix: a comment or directive may end the text without a
 newline

---
 pyverilog/vparser/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 58587a3..1272357 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -98,7 +98,7 @@ class VerilogLexer(object):
     t_ignore = ' \t'
 
     # Directive
-    directive = r"""\`.*?\n"""
+    directive = r"""\`.*\n?"""
 
     @TOKEN(directive)
     def t_DIRECTIVE(self, t):
@@ -110,7 +110,7 @@ class VerilogLexer(object):
         pass
 
     # Comment
-    linecomment = r"""//.*?\n"""
+    linecomment = r"""//.*\n?"""
     commentout = r"""/\*(.|\n)*?\*/"""
 
     @TOKEN(linecomment)
-- 
2.43.0


From 04d88bf5f98b3cc78e9f242b38805fcd65ea594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 10/62] fix: default_nettype applies to the modules that follow
 it

---
 pyverilog/vparser/lexer.py  | 2 +-
 pyverilog/vparser/parser.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 1272357..7d57b13 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -104,7 +104,7 @@ class VerilogLexer(object):
     def t_DIRECTIVE(self, t):
         self.directives.append((self.lexer.lineno, t.value))
         t.lexer.lineno += t.value.count("\n")
-        m = re.match("^`default_nettype\s+(.+)\n", t.value)
+        m = re.match(r"^`default_nettype\s+([a-zA-Z0-9]+)", t.value)
         if m:
             self.default_nettype = m.group(1)
         pass
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 625b1a5..bcf602d 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -126,18 +126,20 @@ class VerilogParser(object):
     def p_moduledef(self, p):
         'moduledef : MODULE modulename paramlist portlist items ENDMODULE'
         p[0] = ModuleDef(name=p[2], paramlist=p[3], portlist=p[4], items=p[5],
-                         default_nettype=self.get_default_nettype(), lineno=p.lineno(1))
+                         default_nettype=self.module_nettype, lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(6)
 
     def p_modulename(self, p):
         'modulename : ID'
         p[0] = p[1]
+        self.module_nettype = self.get_default_nettype()
         p.set_lineno(0, p.lineno(1))
 
     def p_modulename_or(self, p):
         'modulename : SENS_OR'  # or primitive
         p[0] = p[1]
+        self.module_nettype = self.get_default_nettype()
         p.set_lineno(0, p.lineno(1))
 
     def p_paramlist(self, p):
-- 
2.43.0


From d8067ce3b4cf71aa90a32c9ab41d3a58b4074d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 11/62] fix: a parser that is used again starts from a clean
 state

---
 pyverilog/vparser/lexer.py  | 5 +++++
 pyverilog/vparser/parser.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 7d57b13..5e839d9 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -41,6 +41,11 @@ class VerilogLexer(object):
     def reset_lineno(self):
         self.lexer.lineno = 1
 
+    def reset(self):
+        self.reset_lineno()
+        self.directives = []
+        self.default_nettype = 'wire'
+
     def get_directives(self):
         return tuple(self.directives)
 
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index bcf602d..9506b62 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -74,6 +74,7 @@ class VerilogParser(object):
 
     # Returns AST
     def parse(self, text, debug=0):
+        self.lexer.reset()
         return self.parser.parse(text, lexer=self.lexer, debug=debug)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From d4893fe0b4ab61cda55db15a2c8c496f944931e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 12/62] fix: dump_tokens reports illegal characters

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 5e839d9..fd364d0 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -282,7 +282,7 @@ class VerilogLexer(object):
 
 def dump_tokens(text):
     def my_error_func(msg, a, b):
-        sys.write(msg + "\n")
+        sys.stderr.write(msg + "\n")
         sys.exit()
 
     lexer = VerilogLexer(error_func=my_error_func)
-- 
2.43.0


From be3ade0d86f232f1a8271de735f03498933e3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 13/62] fix: sources given as strings keep their place among
 the files

---
 pyverilog/vparser/preprocessor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 4a45548..9fa7b17 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -31,6 +31,9 @@ import subprocess
 class VerilogPreprocessor(object):
     def __init__(self, filelist, outputfile='pp.out', include=None, define=None):
 
+        if isinstance(filelist, str):
+            filelist = (filelist,)
+
         if not isinstance(filelist, (tuple, list)):
             filelist = list(filelist)
 
@@ -49,14 +52,14 @@ class VerilogPreprocessor(object):
                 temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
                 with open(temp_fd, 'w') as f:
                     f.write(source)
+                    f.write('\n')
 
                 self.temp_files_paths.append(temp_path)
+                self.filelist.append(temp_path)
 
             else: # else if it is normal verilog file path
                 self.filelist.append(source)
 
-        self.filelist += self.temp_files_paths
-
         iverilog = os.environ.get('PYVERILOG_IVERILOG')
         if iverilog is None:
             iverilog = 'iverilog'
-- 
2.43.0


From f4baf8e70b919a9c57313f63a3eff177aa0c328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 14/62] fix: a failed preprocessor run is reported instead of
 parsing its partial output

---
 pyverilog/vparser/preprocessor.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 9fa7b17..a7c3ad8 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -70,6 +70,7 @@ class VerilogPreprocessor(object):
         if define is None:
             define = ()
 
+        self.outputfile = outputfile
         self.iv = [iverilog]
 
         for inc in include:
@@ -86,11 +87,17 @@ class VerilogPreprocessor(object):
 
     def preprocess(self):
         cmd = self.iv + list(self.filelist)
-        subprocess.call(cmd)
-
-        # Removing the temporary files that were created
-        for temp_file_path in self.temp_files_paths:
-            os.remove(temp_file_path)
+        try:
+            subprocess.check_call(cmd)
+        except subprocess.CalledProcessError:
+            # the output of a failed run is incomplete
+            if os.path.exists(self.outputfile):
+                os.remove(self.outputfile)
+            raise
+        finally:
+            # Removing the temporary files that were created
+            for temp_file_path in self.temp_files_paths:
+                os.remove(temp_file_path)
 
 
 def preprocess(
-- 
2.43.0


From 44e94030cf5cc6b3255472e8186524f139f432c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 15/62] fix: code generation for
 always_ff/always_comb/always_latch, casez and unique case

---
 pyverilog/ast_code_generator/codegen.py           | 15 +++++++++++++++
 .../ast_code_generator/template/alwayscomb.txt    |  3 +++
 .../ast_code_generator/template/alwaysff.txt      |  3 +++
 .../ast_code_generator/template/alwayslatch.txt   |  3 +++
 .../template/casezstatement.txt                   |  5 +++++
 .../template/uniquecasestatement.txt              |  5 +++++
 6 files changed, 34 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/alwayscomb.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwaysff.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwayslatch.txt
 create mode 100644 pyverilog/ast_code_generator/template/casezstatement.txt
 create mode 100644 pyverilog/ast_code_generator/template/uniquecasestatement.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9b87569..60f220a 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -655,6 +655,15 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
@@ -770,6 +779,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def visit_Case(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/alwayscomb.txt b/pyverilog/ast_code_generator/template/alwayscomb.txt
new file mode 100644
index 0000000..1754e55
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayscomb.txt
@@ -0,0 +1,3 @@
+
+always_comb{% if sens_list != '*' %} @({{ sens_list }}){% endif %} {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwaysff.txt b/pyverilog/ast_code_generator/template/alwaysff.txt
new file mode 100644
index 0000000..1cd8d10
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwaysff.txt
@@ -0,0 +1,3 @@
+
+always_ff{% if sens_list != '*' %} @({{ sens_list }}){% endif %} {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwayslatch.txt b/pyverilog/ast_code_generator/template/alwayslatch.txt
new file mode 100644
index 0000000..f46f4bd
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayslatch.txt
@@ -0,0 +1,3 @@
+
+always_latch{% if sens_list != '*' %} @({{ sens_list }}){% endif %} {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/casezstatement.txt b/pyverilog/ast_code_generator/template/casezstatement.txt
new file mode 100644
index 0000000..4a897b1
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/casezstatement.txt
@@ -0,0 +1,5 @@
+casez({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
diff --git a/pyverilog/ast_code_generator/template/uniquecasestatement.txt b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
new file mode 100644
index 0000000..88ec8f8
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
@@ -0,0 +1,5 @@
+unique case({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
-- 
2.43.0


From fc2ccc0ae8c0af50915144a97c42e15ae6ad8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 16/62] fix: code generation for disable statements and <<<

---
 pyverilog/ast_code_generator/codegen.py           | 3 +++
 pyverilog/ast_code_generator/template/disable.txt | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 60f220a..73f5d56 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -574,6 +574,9 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Srl(self, node):
         return self.visit_Operator(node)
 
+    def visit_Sla(self, node):
+        return self.visit_Operator(node)
+
     def visit_Sra(self, node):
         return self.visit_Operator(node)
 
diff --git a/pyverilog/ast_code_generator/template/disable.txt b/pyverilog/ast_code_generator/template/disable.txt
index a0a9ae8..1752fde 100644
--- a/pyverilog/ast_code_generator/template/disable.txt
+++ b/pyverilog/ast_code_generator/template/disable.txt
@@ -1 +1 @@
-diable {{ name }}
+disable {{ name }}
-- 
2.43.0


From 3178af9987ef96a1ba52624037c58bb36a169a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 17/62] fix: code generation for supply0/supply1 declarations

---
 pyverilog/ast_code_generator/codegen.py          | 12 ++++++++++++
 pyverilog/ast_code_generator/template/supply.txt |  1 +
 2 files changed, 13 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/supply.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 73f5d56..527890e 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -403,6 +403,18 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_Supply(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'name': escape(node.name),
+            'width': '' if node.width is None else self.visit(node.width),
+            'value': self.visit(node.value),
+            'signed': node.signed,
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
     def visit_Decl(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/supply.txt b/pyverilog/ast_code_generator/template/supply.txt
new file mode 100644
index 0000000..7500dc9
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/supply.txt
@@ -0,0 +1 @@
+supply{{ value }} {% if signed %}signed {% endif %}{% if width != '' %}{{ width }} {% endif %}{{ name }};
-- 
2.43.0


From e358328b5aa0e630e68079287011aa93be2d1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 18/62] fix: code generation keeps the initial value of an
 integer

---
 pyverilog/ast_code_generator/codegen.py           | 1 +
 pyverilog/ast_code_generator/template/integer.txt | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 527890e..20c7a23 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -341,6 +341,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'name': escape(node.name),
             'signed': node.signed,
+            'value': '' if node.value is None else self.visit(node.value),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/integer.txt b/pyverilog/ast_code_generator/template/integer.txt
index 4f9e337..a3191c8 100644
--- a/pyverilog/ast_code_generator/template/integer.txt
+++ b/pyverilog/ast_code_generator/template/integer.txt
@@ -1 +1 @@
-integer {{ name }};
+integer {{ name }}{% if value != '' %} = {{ value }}{% endif %};
-- 
2.43.0


From 6a2d173a23bbe2c924d433b6ebca79afffaac80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 19/62] fix: code generation keeps the delays of assignments

---
 pyverilog/ast_code_generator/codegen.py          | 8 +++++++-
 pyverilog/ast_code_generator/template/assign.txt | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 20c7a23..1a23c3d 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -656,6 +656,8 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'left': self.visit(node.left),
             'right': self.visit(node.right),
+            'ldelay': '' if node.ldelay is None else self.visit(node.ldelay),
+            'rdelay': '' if node.rdelay is None else self.visit(node.rdelay),
         }
         rslt = template.render(template_dict)
         rslt = indent_multiline_assign(rslt)
@@ -867,8 +869,12 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_DelayStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
+        delay = self.visit(node.delay)
+        if (not isinstance(node.delay, (Identifier, IntConst, FloatConst)) or
+                (isinstance(node.delay, Identifier) and node.delay.scope is not None)):
+            delay = '(' + del_paren(delay) + ')'
         template_dict = {
-            'delay': self.visit(node.delay),
+            'delay': delay,
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/assign.txt b/pyverilog/ast_code_generator/template/assign.txt
index 86c1391..233f2e2 100644
--- a/pyverilog/ast_code_generator/template/assign.txt
+++ b/pyverilog/ast_code_generator/template/assign.txt
@@ -1 +1 @@
-assign {{ left }} = {{ right }};
+assign {% if ldelay != '' %}{{ ldelay }} {% endif %}{{ left }} = {% if rdelay != '' %}{{ rdelay }} {% endif %}{{ right }};
-- 
2.43.0


From c4f9e2ecc07d2cefc37c1c6221041573376d96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 20/62] fix: code generation keeps spaces that separate
 operators and end escaped names

---
 pyverilog/ast_code_generator/codegen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 1a23c3d..3b6c5e7 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -95,8 +95,12 @@ def del_paren(s):
     return s
 
 
+_space = re.compile(r'''("(?:[^"\\]|\\.)*"|\\\S+ |(?<=[-+*/%&|^~!<>=]) (?=[-+*/%&|^~!<>=])|(?<=\w) (?=\w))| ''')
+
+
 def del_space(s):
-    return s.replace(' ', '')
+    """ delete the spaces that do not separate tokens """
+    return _space.sub(lambda m: m.group(1) or '', s)
 
 
 class ASTCodeGenerator(ConvertVisitor):
-- 
2.43.0


From aade567c2fbdc2f44360f0d39aa9ea67ebf6edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 21/62] fix: code generation separates several parameters of
 one declaration and keeps semicolons in strings

---
 pyverilog/ast_code_generator/codegen.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 3b6c5e7..4199919 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -95,6 +95,10 @@ def del_paren(s):
     return s
 
 
+def del_semicolon(s):
+    return s[:-1] if s.endswith(';') else s
+
+
 _space = re.compile(r'''("(?:[^"\\]|\\.)*"|\\\S+ |(?<=[-+*/%&|^~!<>=]) (?=[-+*/%&|^~!<>=])|(?<=\w) (?=\w))| ''')
 
 
@@ -152,7 +156,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).replace(';', '') for param in node.params]
+        params = []
+        for param in node.params:
+            params.extend(param.list if isinstance(param, Decl) else (param,))
+        params = [del_semicolon(self.visit(param)) for param in params]
         template_dict = {
             'params': params,
             'len_params': len(params),
@@ -763,9 +770,9 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
-            'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
+            'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
-            'post': '' if node.post is None else del_space(self.visit(node.post).replace(';', '')),
+            'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
             'statement': '' if node.statement is None else self.visit(node.statement),
         }
         rslt = template.render(template_dict)
-- 
2.43.0


From e3d744ad97c5009a186ef3e12f83765e05234b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 22/62] fix: code generation keeps the range of a parameter
 whose value is a string

---
 pyverilog/ast_code_generator/codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 4199919..eedb421 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -395,7 +395,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
@@ -408,7 +408,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
-- 
2.43.0


From 5fd648ca49d8cb37921d47f5b4a6b62b713d5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 23/62] fix: code generation separates generate items and wraps
 declarations of a branch

---
 pyverilog/ast_code_generator/codegen.py            | 14 +++++++++++---
 .../template/generatestatement.txt                 |  3 ++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index eedb421..deaa89a 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -753,11 +753,19 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = indent_multiline_assign(rslt)
         return rslt
 
+    def visit_branch(self, node):
+        """ body of a branch or loop: one statement or item """
+        if node is None:
+            return ''
+        if isinstance(node, Decl) and len(node.list) > 1:
+            node = Block(node.list)
+        return self.visit(node)
+
     def visit_IfStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        true_statement = '' if node.true_statement is None else self.visit(node.true_statement)
-        false_statement = '' if node.false_statement is None else self.visit(node.false_statement)
+        true_statement = self.visit_branch(node.true_statement)
+        false_statement = self.visit_branch(node.false_statement)
         template_dict = {
             'cond': del_paren(self.visit(node.cond)),
             'true_statement': true_statement,
@@ -773,7 +781,7 @@ class ASTCodeGenerator(ConvertVisitor):
             'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
-            'statement': '' if node.statement is None else self.visit(node.statement),
+            'statement': self.visit_branch(node.statement),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/generatestatement.txt b/pyverilog/ast_code_generator/template/generatestatement.txt
index f7447a0..527d6dc 100644
--- a/pyverilog/ast_code_generator/template/generatestatement.txt
+++ b/pyverilog/ast_code_generator/template/generatestatement.txt
@@ -1,4 +1,5 @@
 
-generate {% for item in items %}{{ item }}{% endfor %}
+generate {% for item in items %}{{ item }}{% if not loop.last %}
+{% endif %}{% endfor %}
 endgenerate
 
-- 
2.43.0


From 697484cb9272ff46b9d1896cad0870360b8746c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 24/62] fix: a conditional operator as the condition of another
 one raised AttributeError

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index cb73857..2810724 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1028,7 +1028,7 @@ class BindVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
-- 
2.43.0


From 5c0a02ba98068c22a57a382c38ee85d6113b8dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 25/62] fix: 'signed signed a;' was accepted and the signal
 dropped

---
 pyverilog/vparser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 9506b62..e66f6ec 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -543,7 +543,7 @@ class VerilogParser(object):
         if ('supply0' in sigtypes or 'supply1' in sigtypes) and \
            dimensions is not None:
             raise ParseError("SyntaxError")
-        if len(sigtypes) == 1 and 'signed' in sigtypes:
+        if set(sigtypes) == {'signed'}:
             raise ParseError("Syntax Error")
         if 'input' in sigtypes and 'output' in sigtypes:
             raise ParseError("Syntax Error")
@@ -624,7 +624,7 @@ class VerilogParser(object):
         return decls
 
     def typecheck_declassign(self, sigtypes):
-        if len(sigtypes) == 1 and 'signed' in sigtypes:
+        if set(sigtypes) == {'signed'}:
             raise ParseError("Syntax Error")
         if 'reg' not in sigtypes and 'wire' not in sigtypes:
             raise ParseError("Syntax Error")
-- 
2.43.0


From d03b6552762c7b54229f8fa737cb9f214ed365b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 26/62] fix: an assignment under nested conditions lost the
 value assigned before

---
 pyverilog/dataflow/bindvisitor.py | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 2810724..2a285d3 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1501,10 +1501,7 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
-        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree)
-        if rest_flowlist and rest_tree is not None:
-            _rest_flowlist = rest_flowlist[:-1] + (not rest_flowlist[-1], )
-            add_tree = self.appendBranchTree(add_tree, _rest_flowlist, rest_tree)
+        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
@@ -1531,25 +1528,14 @@ class BindVisitor(NodeVisitor):
                 tree.falsenode, condlist[1:], flowlist[1:],
                 matchflowlist + (flowlist[0],))
 
-    def makeBranchTree(self, condlist, flowlist, node):
+    def makeBranchTree(self, condlist, flowlist, node, rest=None):
+        # rest: the value where the conditions do not hold
         if len(condlist) == 0 or len(flowlist) == 0:
             return node
-        if len(condlist) == 1:
-            if flowlist[0]:
-                return DFBranch(condlist[0], node, None)
-            else:
-                return DFBranch(condlist[0], None, node)
-        else:
-            if flowlist[0]:
-                return DFBranch(
-                    condlist[0],
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node),
-                    None)
-            else:
-                return DFBranch(
-                    condlist[0],
-                    None,
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node))
+        tree = self.makeBranchTree(condlist[1:], flowlist[1:], node, rest)
+        if flowlist[0]:
+            return DFBranch(condlist[0], tree, rest)
+        return DFBranch(condlist[0], rest, tree)
 
     def appendBranchTree(self, base, pos, tree):
         if len(pos) == 0:
-- 
2.43.0


From d1e1f4ae459c39e2023a24296d6ad1ffa8878296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 27/62] fix: always_ff @(*) followed by an event control lost
 its own event control in generated code

---
 pyverilog/ast_code_generator/template/alwayscomb.txt  | 2 +-
 pyverilog/ast_code_generator/template/alwaysff.txt    | 2 +-
 pyverilog/ast_code_generator/template/alwayslatch.txt | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/template/alwayscomb.txt b/pyverilog/ast_code_generator/template/alwayscomb.txt
index 1754e55..673e008 100644
--- a/pyverilog/ast_code_generator/template/alwayscomb.txt
+++ b/pyverilog/ast_code_generator/template/alwayscomb.txt
@@ -1,3 +1,3 @@
 
-always_comb{% if sens_list != '*' %} @({{ sens_list }}){% endif %} {{ statement }}
+always_comb{% if sens_list != '*' or statement.startswith('@') %} @({{ sens_list }}){% endif %} {{ statement }}
 
diff --git a/pyverilog/ast_code_generator/template/alwaysff.txt b/pyverilog/ast_code_generator/template/alwaysff.txt
index 1cd8d10..b190462 100644
--- a/pyverilog/ast_code_generator/template/alwaysff.txt
+++ b/pyverilog/ast_code_generator/template/alwaysff.txt
@@ -1,3 +1,3 @@
 
-always_ff{% if sens_list != '*' %} @({{ sens_list }}){% endif %} {{ statement }}
+always_ff{% if sens_list != '*' or statement.startswith('@') %} @({{ sens_list }}){% endif %} {{ statement }}
 
diff --git a/pyverilog/ast_code_generator/template/alwayslatch.txt b/pyverilog/ast_code_generator/template/alwayslatch.txt
index f46f4bd..8df090f 100644
--- a/pyverilog/ast_code_generator/template/alwayslatch.txt
+++ b/pyverilog/ast_code_generator/template/alwayslatch.txt
@@ -1,3 +1,3 @@
 
-always_latch{% if sens_list != '*' %} @({{ sens_list }}){% endif %} {{ statement }}
+always_latch{% if sens_list != '*' or statement.startswith('@') %} @({{ sens_list }}){% endif %} {{ statement }}
 
-- 
2.43.0


From c6aa54aba2a523f72c1568a0c59c386ecfc46093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 28/62] fix: an ascending range in a concatenated assignment
 target selected no bits

---
 pyverilog/dataflow/bindvisitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 2a285d3..339b345 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1313,6 +1313,10 @@ class BindVisitor(NodeVisitor):
             if msb is None and lsb is None:
                 msb, lsb = self.getTermWidth(name)
             diff = reorder.reorder(DFOperator((msb, lsb), 'Minus'))
+            diff_value = self.optimize(diff)
+            if isinstance(diff_value, DFEvalValue) and diff_value.value < 0:
+                # the range is ascending, such as [0:3]
+                diff = reorder.reorder(DFOperator((lsb, msb), 'Minus'))
             part_lsb = part_offset
             part_msb = reorder.reorder(DFOperator((part_offset, diff), 'Plus'))
             part_offset = reorder.reorder(
-- 
2.43.0


From b66e21c6bb4f1eb1acdcf57ccabde1305b1d7394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 29/62] fix: constant folding of <<< (Sla) returned no value

---
 pyverilog/dataflow/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b348416..9fe92ac 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -245,6 +245,8 @@ class VerilogOptimizer(object):
             return valuelist[0] << valuelist[1]
         if operator == 'Srl':
             return valuelist[0] >> valuelist[1]
+        if operator == 'Sla':
+            return valuelist[0] << valuelist[1]
         if operator == 'Sra':
             return valuelist[0] >> valuelist[1]
 
-- 
2.43.0


From a8e27a37b72aff6977e7f3556b5728e2eaace901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 30/62] fix: partial and concatenated assignments under
 conditions selected bits twice or from the wrong place

---
 pyverilog/dataflow/bindvisitor.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 339b345..4ad0b67 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1464,9 +1464,13 @@ class BindVisitor(NodeVisitor):
         term_i = 0
         for name, msb, lsb, ptr, part_msb, part_lsb in dst:
             renamed_term = DFTerminal(renamed_dst[term_i][0])
-            renamed_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
+            if ptr is not None:
+                renamed_term = DFPointer(renamed_term, ptr)
+            if msb is not None and lsb is not None and (msb, lsb) != self.getTermWidth(name):
+                renamed_term = DFPartselect(renamed_term, msb, lsb)
+            renamed_bind = self.makeBind(name, msb, lsb, ptr, None, None,
                                          renamed_term, condlist, flowlist,
-                                         num_dst=len(dst), alwaysinfo=alwaysinfo)
+                                         alwaysinfo=alwaysinfo)
             self.dataflow.addBind(name, renamed_bind)
             self.frames.setBlockingAssign(name, renamed_bind, scope)
             term_i += 1
@@ -1475,6 +1479,10 @@ class BindVisitor(NodeVisitor):
                  raw_tree, condlist, flowlist,
                  num_dst=1, alwaysinfo=None, bindtype=None):
 
+        if num_dst > 1:
+            raw_tree = reorder.reorder(
+                DFPartselect(raw_tree, part_msb, part_lsb))
+
         current_bindlist = self.getBindlist(name)
         current_tree = None
         current_msb = None
@@ -1510,10 +1518,6 @@ class BindVisitor(NodeVisitor):
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
 
-        if num_dst > 1:
-            tree = reorder.reorder(
-                DFPartselect(tree, part_msb, part_lsb))
-
         return Bind(tree, name, msb, lsb, ptr, alwaysinfo, bindtype)
 
     def diffBranchTree(self, tree, condlist, flowlist, matchflowlist=()):
-- 
2.43.0


From 295aacc036dcdd9221f67b3261e180f7cbb44d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:23 +0000
Subject: [PATCH 31/62] fix: a condition reading a variable the branch
 reassigns used the value assigned in the branch

---
 pyverilog/dataflow/visit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index da67da3..53cb227 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -487,12 +487,14 @@ class Frame(object):
         return self.modulename
 
     def setBlockingAssign(self, dst, bind):
+        # a copy: a later assignment in another scope changes the tree of the bind
+        bind = copy.copy(bind)
         if not dst in self.blockingassign:
             self.blockingassign[dst] = (bind,)
             return
         current = self.blockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.blockingassign[dst][c_i].tree = bind.tree
                 return
         self.blockingassign[dst] = current + (bind,)
@@ -511,7 +513,7 @@ class Frame(object):
             return
         current = self.nonblockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.nonblockingassign[dst][c_i].tree = copy.deepcopy(bind.tree)
                 return
         self.nonblockingassign[dst] = current + (copy.deepcopy(bind),)
-- 
2.43.0


From bdccd3ac72aeeff199e7c07cec4b4d3af46d297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 32/62] fix: a default nonblocking assignment was repeated
 under every later condition, overriding assignments in between

---
 pyverilog/dataflow/bindvisitor.py | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 4ad0b67..d31cccf 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -333,8 +333,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.true_statement is not None:
             self.visit(node.true_statement)
         self.frames.setCurrent(current)
@@ -353,8 +351,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.false_statement is not None:
             self.visit(node.false_statement)
         self.frames.setCurrent(current)
@@ -399,8 +395,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(self.frames.getCurrent())
 
         if case.statement is not None:
@@ -420,8 +414,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(current + ScopeLabel(label, 'if'))
 
         self._case(comp, caselist[1:], myframes)
@@ -647,24 +639,6 @@ class BindVisitor(NodeVisitor):
             self.dataflow.addTask(name, definition.getDefinition())
             self.dataflow.addTaskPorts(name, definition.getIOPorts())
 
-    def copyPreviousNonblockingAssign(self, scope):
-        assign = self.frames.getPreviousNonblockingAssign()
-        for name, bindlist in assign.items():
-            for bind in bindlist:
-                self.frames.addNonblockingAssign(name, bind)
-                msb = bind.msb
-                lsb = bind.lsb
-                ptr = bind.ptr
-                part_msb = None
-                part_lsb = None
-                condlist, flowlist = self.getCondflow(scope)
-                alwaysinfo = bind.alwaysinfo
-                raw_tree = bind.tree
-                new_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
-                                         raw_tree, condlist, flowlist,
-                                         alwaysinfo=alwaysinfo)
-                self.dataflow.addBind(name, new_bind)
-
     def copyBlockingAssigns(self, scope_copy_from, scope_copy_to):
         assign = self.frames.getBlockingAssignsScope(scope_copy_from)
         for name, bindlist in assign.items():
-- 
2.43.0


From 23675b0d873fc7aa6c83c98c97e7a370b30a4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:58 +0000
Subject: [PATCH 33/62] fix: an instance of a module with a ranged parameter
 was rejected

---
 pyverilog/dataflow/signalvisitor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e2d5251..5d09be3 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -468,8 +468,11 @@ class SignalVisitor(NodeVisitor):
     def makeConstantTerm(self, name, node, scope):
         termtype = node.__class__.__name__
         termtypes = set([termtype])
-        msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
-        lsb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.lsb, scope)
+        if node.width is None:
+            return Term(name, termtypes, DFIntConst('31'), DFIntConst('0'))
+        # the range of a simple definition is not known yet
+        msb = None if node.width.msb is None else self.makeDFTree(node.width.msb, scope)
+        lsb = None if node.width.lsb is None else self.makeDFTree(node.width.lsb, scope)
         return Term(name, termtypes, msb, lsb)
 
     def getTree(self, node, scope):
-- 
2.43.0


From 94862c4a37fabce1e902b1e582ace65109fcdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 34/62] fix: folding a select of a constant ignored the
 declared range of the constant

---
 pyverilog/dataflow/optimizer.py | 36 ++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 9fe92ac..093f323 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -120,7 +120,7 @@ class VerilogOptimizer(object):
                 msb_val = self.optimizeConstant(msb)
                 lsb_val = self.optimizeConstant(lsb)
                 if isinstance(msb_val, DFEvalValue) and isinstance(lsb_val, DFEvalValue):
-                    constwidth = msb_val.value - lsb_val.value + 1
+                    constwidth = abs(msb_val.value - lsb_val.value) + 1
             return DFEvalValue(const.value, constwidth)
 
         if isinstance(tree, DFConcat):
@@ -135,9 +135,12 @@ class VerilogOptimizer(object):
             var = self.optimizeConstant(tree.var)
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
-            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(msb, DFEvalValue):
-                evalcc = self.evalPartselect(var, msb, lsb)
-                return evalcc
+            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                evalcc = self.evalPartselect(
+                    var, self.toPosition(tree.var, msb), self.toPosition(tree.var, lsb))
+                if evalcc is not None:
+                    return evalcc
+                return DFPartselect(tree.var, msb, lsb)
             return DFPartselect(var, msb, lsb)
 
         if isinstance(tree, DFPointer):
@@ -149,8 +152,10 @@ class VerilogOptimizer(object):
             if term.dims is not None:
                 return DFPointer(var, ptr)
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
-                evalcc = self.evalPointer(var, ptr)
-                return evalcc
+                evalcc = self.evalPointer(var, self.toPosition(tree.var, ptr))
+                if evalcc is not None:
+                    return evalcc
+                return DFPointer(tree.var, ptr)
             return DFPointer(var, ptr)
 
         if isinstance(tree, DFSyscall):
@@ -364,15 +369,32 @@ class VerilogOptimizer(object):
             return False
         return True
 
+    def toPosition(self, var, index):
+        # position, counted from the right, of the bit of var with the given index
+        if not isinstance(var, DFTerminal) or not self.hasTerm(var.name):
+            return index
+        term = self.getTerm(var.name)
+        msb = self.optimizeConstant(term.msb)
+        lsb = self.optimizeConstant(term.lsb)
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            return index
+        if msb.value >= lsb.value:
+            return DFEvalValue(index.value - lsb.value)
+        return DFEvalValue(lsb.value - index.value)
+
     def evalPartselect(self, var, msb, lsb):
         width = msb.value - lsb.value + 1
+        if lsb.value < 0 or width <= 0:
+            return None
         partval = var.value >> lsb.value
         if partval >= 2 ** width:
             partval = partval % (2 ** width)
         return DFEvalValue(partval, width)
 
     def evalPointer(self, var, ptr):
-        ptrval = (var >> ptr) & 0x1
+        if ptr.value < 0:
+            return None
+        ptrval = (var.value >> ptr.value) & 0x1
         return DFEvalValue(ptrval, 1)
 
     def optimizeHierarchy(self, tree):
-- 
2.43.0


From d5fd895ba25b8ecdf6cc5d365dfd4c0d9483f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 35/62] fix: a concatenation of selects with variable positions
 could not be optimized

---
 pyverilog/dataflow/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 093f323..f77d198 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -621,6 +621,9 @@ class VerilogOptimizer(object):
                 pass
             elif last_node.var.name != n.var.name:
                 pass
+            elif not all(isinstance(i, DFEvalValue)
+                         for i in (last_node.msb, last_node.lsb, n.msb, n.lsb)):
+                pass
             elif last_node.lsb.value == n.msb.value + 1:
                 ret_nodes.pop()
                 new_node = DFPartselect(last_node.var, last_node.msb, n.lsb)
-- 
2.43.0


From 0e4c0329195128bc614f59b66b18c3092c37f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 36/62] fix: a function that reads a variable it has assigned
 before referred to the final value

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 pyverilog/dataflow/visit.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index d31cccf..c915163 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -531,7 +531,7 @@ class BindVisitor(NodeVisitor):
 
         self.generic_visit(node)
         self.frames.setCurrent(current)
-        if self.frames.isAlways():
+        if self.frames.isAlways() or self.frames.isFunctioncall():
             self.copyBlockingAssigns(current + ScopeLabel(label, 'block'), current)
 
     def visit_Assign(self, node):
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 53cb227..446f337 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -786,7 +786,7 @@ class FrameTable(object):
 
     def getBlockingAssign(self, dst, scope):
         p = scope
-        while self.dict[p].isAlways():
+        while self.dict[p].isAlways() or self.dict[p].isFunctioncall():
             ret = self.dict[p].getBlockingAssign(dst)
             if ret:
                 return ret
-- 
2.43.0


From 1e95f8b7e1f4ba5dc4e8d88d5a59a0f9a5eedd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 37/62] fix: a loop under a condition could not be unrolled,
 and the index of a target ignored values assigned before

---
 pyverilog/dataflow/bindvisitor.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index c915163..b42f4ee 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -36,6 +36,7 @@ class BindVisitor(NodeVisitor):
         self.optimizer = VerilogOptimizer({}, {})
 
         self.noreorder = noreorder
+        self.loopvars = []  # variables of the enclosing for-statements
 
         # set the top frame of top module
         self.frames.setCurrent(ScopeChain())
@@ -429,9 +430,11 @@ class BindVisitor(NodeVisitor):
         pre_right = self.getTree(node.pre.right, current)
         pre_right_value = self.optimize(pre_right)
         loop = pre_right_value.value
+        loopvar = self.getDestinations(node.pre.left, current)[0][0]
         self.frames.setForPre()
         self.visit(node.pre)
         self.frames.unsetForPre()
+        self.loopvars.append(loopvar)
         label = self.labels.get(self.frames.getLabelKey('for'))
         #loop = 0
         start_frame = self.frames.getCurrent()
@@ -471,6 +474,11 @@ class BindVisitor(NodeVisitor):
             self.frames.unsetForPost()
             #loop += 1
 
+        if loopvar in self.loopvars:
+            self.loopvars.remove(loopvar)
+        if not signaltype.isGenvar(self.getTermtype(loopvar)):
+            self.resetConstant(loopvar)
+
     def visit_WhileStatement(self, node):
         if self.frames.isFunctiondef() and not self.frames.isFunctioncall():
             return
@@ -923,12 +931,16 @@ class BindVisitor(NodeVisitor):
             if signaltype.isGenvar(self.getTermtype(name)):
                 value = self.optimize(raw_tree)
                 self.setConstant(name, value)
-            else:  # for "for-statement"
+            elif self.frames.isForpre() or self.frames.isForpost():
                 value = self.optimize(raw_tree)
                 if isinstance(value, DFEvalValue):
                     self.setConstant(name, value)
                 else:
                     self.resetConstant(name)
+            elif name in self.loopvars:
+                # no longer controlled by the for-statement only
+                self.loopvars.remove(name)
+                self.resetConstant(name)
 
     def getCondflow(self, scope):
         condlist = self.getCondlist(scope)
@@ -1177,6 +1189,9 @@ class BindVisitor(NodeVisitor):
             if signaltype.isGenvar(self.getTermtype(tree.name)):
                 return self.getConstant(tree.name)
 
+            if tree.name in self.loopvars and self.hasConstant(tree.name):
+                return self.getConstant(tree.name)
+
             current_bindlist = self.frames.getBlockingAssign(tree.name, scope)
             if len(current_bindlist) == 0:
                 return tree
@@ -1337,23 +1352,23 @@ class BindVisitor(NodeVisitor):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.msb, scope))
-                    lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+                    msb = self.optimize(self.getTree(left.msb, scope))
+                    lsb = self.optimize(self.getTree(left.lsb, scope))
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
                 return (name, msb, lsb, ptr)
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            msb = self.optimize(self.makeDFTree(left.msb, scope))
-            lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+            msb = self.optimize(self.getTree(left.msb, scope))
+            lsb = self.optimize(self.getTree(left.lsb, scope))
             return (name, msb, lsb, None)
 
         if isinstance(left, Pointer):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.ptr, scope))
+                    msb = self.optimize(self.getTree(left.ptr, scope))
                     lsb = copy.deepcopy(msb)
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
@@ -1361,7 +1376,7 @@ class BindVisitor(NodeVisitor):
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            ptr = self.optimize(self.makeDFTree(left.ptr, scope))
+            ptr = self.optimize(self.getTree(left.ptr, scope))
             if self.getTermDims(name) is not None:
                 return (name, None, None, ptr)
             return (name, ptr, copy.deepcopy(ptr), None)
-- 
2.43.0


From 7d6ff800efec0aa058459b9b025422ad3d8bd40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:44 +0000
Subject: [PATCH 38/62] fix: reading a variable after assignments to some of
 its bits gave other bits

---
 pyverilog/dataflow/bindvisitor.py | 163 ++++++++++++++++++++++++------
 pyverilog/dataflow/visit.py       |   5 +
 2 files changed, 135 insertions(+), 33 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index b42f4ee..b8a5a47 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1166,8 +1166,7 @@ class BindVisitor(NodeVisitor):
         return tuple(reversed(resolved_condlist))
 
     def removeOverwrappedCondition(self, tree, current_bindlist, scope):
-        msb, lsb = self.getTermWidth(tree.name)
-        merged_tree = self.getFitTree(current_bindlist, msb, lsb)
+        merged_tree = self.getFitTree(tree.name, current_bindlist)
         condlist, flowlist = self.getCondflow(scope)
         (merged_tree,
          rest_condlist,
@@ -1227,6 +1226,17 @@ class BindVisitor(NodeVisitor):
         if isinstance(tree, DFPartselect):
             resolved_msb = self.resolveBlockingAssign(tree.msb, scope)
             resolved_lsb = self.resolveBlockingAssign(tree.lsb, scope)
+            if isinstance(tree.var, DFTerminal) and self.getTermDims(tree.var.name) is None:
+                current_bindlist = self.frames.getBlockingAssign(tree.var.name, scope)
+                if any(b.msb is not None for b in current_bindlist):
+                    if (isinstance(self.optimize(resolved_msb), DFEvalValue) and
+                            isinstance(self.optimize(resolved_lsb), DFEvalValue)):
+                        return self.getMergedTree(tree.var.name, current_bindlist,
+                                                  resolved_msb, resolved_lsb)
+                    return reorder.insertPartselect(
+                        self.getFitTree(tree.var.name, current_bindlist),
+                        self.getPositionTree(tree.var.name, resolved_msb),
+                        self.getPositionTree(tree.var.name, resolved_lsb))
             resolved_var = self.resolveBlockingAssign(tree.var, scope)
             if isinstance(resolved_var, DFBranch):
                 return reorder.insertPartselect(resolved_var,
@@ -1255,40 +1265,127 @@ class BindVisitor(NodeVisitor):
         raise verror.FormatError("unsupported DFNode type: %s %s" %
                                  (str(type(tree)), str(tree)))
 
-    def getFitTree(self, bindlist, msb, lsb):
-        optimized_msb = self.optimize(msb)
-        optimized_lsb = self.optimize(lsb)
+    def getFitTree(self, name, bindlist):
+        if len(bindlist) == 1 and bindlist[0].msb is None and bindlist[0].lsb is None:
+            return bindlist[0].tree
+        term_msb, term_lsb = self.getTermWidth(name)
+        return self.getMergedTree(name, bindlist, term_msb, term_lsb)
+
+    def getMergedTree(self, name, bindlist, msb, lsb):
+        """ the bits msb..lsb of the signal after the assignments of bindlist """
+        high = self.getPosition(name, msb)
+        low = self.getPosition(name, lsb)
+        term_msb, term_lsb = self.getTermWidth(name)
+        width = self.getPosition(name, term_msb) + 1
+        # parts (high position, low position, tree) from MSB
+        parts = [(width - 1, 0, DFTerminal(name))]
         for bind in bindlist:
             if bind.msb is None and bind.lsb is None:
-                return bind.tree
-            if (self.optimize(bind.msb) == optimized_msb and
-                    self.optimize(bind.lsb) == optimized_lsb):
-                return bind.tree
-        return self.getMergedTree(bindlist)
-
-    def getMergedTree(self, bindlist):
-        concatlist = []
-        last_msb = -1
-        last_ptr = -1
-
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = (abs(self.optimize(term.msb).value
-                          - self.optimize(term.lsb).value) + 1)
-            return ptr * length + lsb
-        for bind in sorted(bindlist, key=bindkey):
-            lsb = 0 if bind.lsb is None else bind.lsb.value
-            if last_ptr != (-1 if not isinstance(bind.ptr, DFEvalValue)
-                            else bind.ptr.value):
+                last = self.cutParts(name, parts, width - 1, 0)
+                parts = [(width - 1, 0, self.fillTree(bind.tree, last))]
+                continue
+            if bind.msb == bind.lsb and not isinstance(self.optimize(bind.msb), DFEvalValue):
+                last = self.cutParts(name, parts, width - 1, 0)
+                parts = [(width - 1, 0, self.setBit(
+                    bind.tree, self.getPositionTree(name, bind.msb), last, width))]
+                continue
+            bind_high = self.getPosition(name, bind.msb)
+            bind_low = self.getPosition(name, bind.lsb)
+            last = self.cutParts(name, parts, bind_high, bind_low)
+            new_parts = []
+            for part_high, part_low, tree in parts:
+                if part_high > bind_high:
+                    cut_low = max(part_low, bind_high + 1)
+                    new_parts.append((part_high, cut_low, self.cutTree(
+                        tree, part_high - part_low, part_high - part_low, cut_low - part_low)))
+                if part_low <= bind_high <= part_high:
+                    new_parts.append((bind_high, bind_low, self.fillTree(bind.tree, last)))
+                if part_low < bind_low:
+                    cut_high = min(part_high, bind_low - 1)
+                    new_parts.append((cut_high, part_low, self.cutTree(
+                        tree, part_high - part_low, cut_high - part_low, 0)))
+            parts = new_parts
+        return self.cutParts(name, parts, high, low)
+
+    def getPosition(self, name, index):
+        """ position from LSB of the bit with the index """
+        msb, lsb = self.getTermWidth(name)
+        msb = self.optimize(msb)
+        lsb = self.optimize(lsb)
+        index = self.optimize(index)
+        if not all(isinstance(v, DFEvalValue) for v in (msb, lsb, index)):
+            raise verror.FormatError(("Can not refer to the variable after an assignment "
+                                      "to a bit that is not constant: %s" % str(name)))
+        if msb.value >= lsb.value:
+            return index.value - lsb.value
+        return lsb.value - index.value
+
+    def getPositionTree(self, name, index):
+        msb, lsb = self.getTermWidth(name)
+        if self.optimize(msb).value < self.optimize(lsb).value:
+            return DFOperator((lsb, index), 'Minus')
+        if self.optimize(lsb).value == 0:
+            return index
+        return DFOperator((index, lsb), 'Minus')
+
+    def setBit(self, tree, pos, last, width):
+        """ the last value with the bit at a position that is not constant replaced """
+        if tree is None:
+            return last
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.setBit(tree.truenode, pos, last, width),
+                            self.setBit(tree.falsenode, pos, last, width))
+        mask = DFOperator((DFIntConst("%d'd1" % width), pos), 'Sll')
+        bit = tree
+        if width > 1:
+            bit = DFConcat((DFIntConst("%d'd0" % (width - 1)), tree))
+        return DFOperator((DFOperator((last, DFOperator((mask,), 'Unot')), 'And'),
+                           DFOperator((bit, pos), 'Sll')), 'Or')
+
+    def fillTree(self, tree, last):
+        """ the value assigned, and the last value where no value is assigned """
+        if tree is None:
+            return last
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.fillTree(tree.truenode, last),
+                            self.fillTree(tree.falsenode, last))
+        return tree
+
+    def cutParts(self, name, parts, high, low):
+        nodes = []
+        for part_high, part_low, tree in parts:
+            if part_high < low or part_low > high:
                 continue
-            if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
-            concatlist.append(bind.tree)
-            last_msb = -1 if bind.msb is None else bind.msb.value
-            last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
-        return DFConcat(tuple(reversed(concatlist)))
+            nodes.append(self.cutTree(tree, part_high - part_low,
+                                      min(high, part_high) - part_low,
+                                      max(low, part_low) - part_low))
+        if len(nodes) == 1:
+            return nodes[0]
+        return DFConcat(tuple(nodes))
+
+    def cutTree(self, tree, last, high, low):
+        """ the bits high..low of a tree of last + 1 bits """
+        if high == last and low == 0:
+            return tree
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.cutTree(tree.truenode, last, high, low),
+                            self.cutTree(tree.falsenode, last, high, low))
+        var, msb, lsb = tree, last, 0
+        if (isinstance(tree, DFPartselect) and
+            isinstance(self.optimize(tree.msb), DFEvalValue) and
+                isinstance(self.optimize(tree.lsb), DFEvalValue)):
+            var = tree.var
+            msb = self.optimize(tree.msb).value
+            lsb = self.optimize(tree.lsb).value
+        elif isinstance(tree, DFTerminal):
+            msb, lsb = self.getTermWidth(tree.name)
+            msb = self.optimize(msb).value
+            lsb = self.optimize(lsb).value
+        if msb >= lsb:
+            high, low = lsb + high, lsb + low
+        else:
+            high, low = lsb - high, lsb - low
+        return DFPartselect(var, DFIntConst(str(high)), DFIntConst(str(low)))
 
     def getDestinations(self, left, scope):
         ret = []
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 446f337..6ae8fd9 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -788,6 +788,11 @@ class FrameTable(object):
         p = scope
         while self.dict[p].isAlways() or self.dict[p].isFunctioncall():
             ret = self.dict[p].getBlockingAssign(dst)
+            if ret and any(b.msb is not None and b.ptr is None for b in ret):
+                # only some bits: the others may be assigned in outer scopes
+                outer = self.getBlockingAssign(dst, self.dict[p].getPrevious())
+                return tuple(o for o in outer
+                             if not any(o.msb == b.msb and o.lsb == b.lsb for b in ret)) + ret
             if ret:
                 return ret
             p = self.dict[p].getPrevious()
-- 
2.43.0


From 0ef215e31b1737115157ecdafdc56e7447dbfb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 39/62] fix: the width of a select with a variable position
 could not be computed

---
 pyverilog/dataflow/optimizer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index f77d198..2ca0ed8 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -317,9 +317,13 @@ class VerilogOptimizer(object):
             return max(truewidth, falsewidth)
 
         if isinstance(node, DFPartselect):
-            msb = self.optimizeConstant(node.msb).value
-            lsb = self.optimizeConstant(node.lsb).value
-            width = abs(msb - lsb) + 1
+            if node.msb == node.lsb:
+                return 1
+            msb = self.optimizeConstant(node.msb)
+            lsb = self.optimizeConstant(node.lsb)
+            if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+                return self.default_width
+            width = abs(msb.value - lsb.value) + 1
             return width
         if isinstance(node, DFOperator):
             if node.operator in self.compare_ops:
-- 
2.43.0


From 0e29e64d5d5e540eb7aa2fb8b4ca5d9d8a3d2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:39 +0000
Subject: [PATCH 40/62] fix: optimizing && and || could leave an operand of
 several bits instead of their one bit result

---
 pyverilog/dataflow/optimizer.py | 70 ++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 18 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 2ca0ed8..67e243e 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -19,7 +19,9 @@ from pyverilog.dataflow.dataflow import *
 
 class VerilogOptimizer(object):
     default_width = 32
-    compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    one_bit_unary_ops = ('Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
+    shift_ops = ('Sll', 'Srl', 'Sla', 'Sra', 'Power')
 
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
@@ -305,13 +307,21 @@ class VerilogOptimizer(object):
                 return node.width
             return self.default_width
         if isinstance(node, DFTerminal):
+            if not self.hasTerm(node.name):
+                return self.default_width
             term = self.getTerm(node.name)
-            msb = self.optimizeConstant(term.msb).value
-            lsb = self.optimizeConstant(term.lsb).value
-            width = abs(msb - lsb) + 1
+            msb = self.optimizeConstant(term.msb)
+            lsb = self.optimizeConstant(term.lsb)
+            if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+                return self.default_width
+            width = abs(msb.value - lsb.value) + 1
             return width
 
         if isinstance(node, DFBranch):
+            if node.truenode is None:
+                return self.getWidth(node.falsenode)
+            if node.falsenode is None:
+                return self.getWidth(node.truenode)
             truewidth = self.getWidth(node.truenode)
             falsewidth = self.getWidth(node.falsenode)
             return max(truewidth, falsewidth)
@@ -330,6 +340,10 @@ class VerilogOptimizer(object):
                 return 1
             if node.operator == 'Land' or node.operator == 'Lor':
                 return 1
+            if node.operator in self.one_bit_unary_ops:
+                return 1
+            if node.operator in self.shift_ops:
+                return self.getWidth(node.nextnodes[0])
             maxwidth = 0
             for n in node.nextnodes:
                 width = self.getWidth(n)
@@ -352,10 +366,10 @@ class VerilogOptimizer(object):
                 width = abs(msb - lsb) + 1
                 return width
             return 1
-        if isinstance(tree, DFSyscall):
+        if isinstance(node, DFSyscall):
             return self.default_width
 
-        raise FormatError('Illegal Pointer in getWidth()')
+        raise verror.FormatError('Illegal Pointer in getWidth()')
 
     def evalConcat(self, nextnodes):
         concatval = 0
@@ -697,9 +711,9 @@ class VerilogOptimizer(object):
         if node.operator == 'Or':
             return node.nextnodes[0]
         if node.operator == 'Land':
-            return node.nextnodes[0]
+            return self.toLogical(node.nextnodes[0])
         if node.operator == 'Lor':
-            return node.nextnodes[0]
+            return self.toLogical(node.nextnodes[0])
         if node.operator == 'LessThan':
             return DFEvalValue(0, 1)  # value, width
         if node.operator == 'GreaterThan':
@@ -781,18 +795,18 @@ class VerilogOptimizer(object):
             if isinstance(right, DFEvalValue) and right.value == 0:
                 return DFEvalValue(0, 1)
             if isinstance(left, DFEvalValue) and left.value > 0:
-                return right
+                return self.toLogical(right)
             if isinstance(right, DFEvalValue) and right.value > 0:
-                return left
+                return self.toLogical(left)
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
-                if self.getWidth(node) == 1:
+                if self.getWidth(left) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
             if isinstance(right, DFOperator) and right.operator == 'Unot'\
                     and right.nextnodes[0] == left:
-                if self.getWidth(node) == 1:
+                if self.getWidth(left) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
@@ -865,9 +879,9 @@ class VerilogOptimizer(object):
             return node
         if node.operator == 'Lor':
             if isinstance(left, DFEvalValue) and left.value == 0:
-                return right
+                return self.toLogical(right)
             if isinstance(right, DFEvalValue) and right.value == 0:
-                return left
+                return self.toLogical(left)
             if isinstance(left, DFEvalValue) and left.value > 0:
                 return DFEvalValue(1, 1)
             if isinstance(right, DFEvalValue) and right.value > 0:
@@ -889,28 +903,44 @@ class VerilogOptimizer(object):
                     and isinstance(left.nextnodes[0], DFOperator) and left.nextnodes[0].operator == 'Ulnot'\
                     and left.nextnodes[0].nextnodes[0] == right.nextnodes[0]\
                     and left.nextnodes[1] == right.nextnodes[1]:
-                return left.nextnodes[1]
+                return self.toLogical(left.nextnodes[1])
             if isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left.nextnodes[1], DFOperator) and left.nextnodes[1].operator == 'Ulnot'\
                     and left.nextnodes[1].nextnodes[0] == right.nextnodes[0]\
                     and left.nextnodes[0] == right.nextnodes[1]:
-                return left.nextnodes[0]
+                return self.toLogical(left.nextnodes[0])
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[0], DFOperator) and right.nextnodes[0].operator == 'Ulnot'\
                     and right.nextnodes[0].nextnodes[0] == left.nextnodes[0]\
                     and right.nextnodes[1] == left.nextnodes[1]:
-                return right.nextnodes[1]
+                return self.toLogical(right.nextnodes[1])
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[1], DFOperator) and right.nextnodes[1].operator == 'Ulnot'\
                     and right.nextnodes[1].nextnodes[0] == left.nextnodes[0]\
                     and right.nextnodes[0] == left.nextnodes[1]:
-                return right.nextnodes[0]
+                return self.toLogical(right.nextnodes[0])
             return node
         return node
 
+    def toLogical(self, node):
+        # the operand of a logical operator as the one bit value that operator gives
+        if self.isLogical(node):
+            return node
+        return DFOperator((node,), 'Uor')
+
+    def isLogical(self, node):
+        if isinstance(node, DFOperator):
+            if node.operator in ('And', 'Or', 'Xor'):
+                return all(self.isLogical(n) for n in node.nextnodes)
+            return (node.operator in self.compare_ops or node.operator in self.one_bit_unary_ops
+                    or node.operator in ('Land', 'Lor'))
+        if isinstance(node, DFBranch):
+            return all(n is not None and self.isLogical(n) for n in (node.truenode, node.falsenode))
+        return self.getWidth(node) == 1
+
     def mergeLandLor(self, node):
         return self.mergeLor(node)
 
@@ -923,6 +953,8 @@ class VerilogOptimizer(object):
                     retnode = r
                 else:
                     retnode = DFOperator((retnode, r), 'Land')
+            if len(ret) == 1:
+                return self.toLogical(retnode)
             return retnode
         return ret
 
@@ -964,6 +996,8 @@ class VerilogOptimizer(object):
                     retnode = r
                 else:
                     retnode = DFOperator((retnode, r), 'Lor')
+            if len(ret) == 1:
+                return self.toLogical(retnode)
             return retnode
         return ret
 
-- 
2.43.0


From 262496dfeaecec7563e1cc6735230486a583b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:39 +0000
Subject: [PATCH 41/62] fix: constant division by zero raised an exception, and
 results of constant operators had wrong widths or values

---
 pyverilog/dataflow/optimizer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 67e243e..670d425 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -183,10 +183,12 @@ class VerilogOptimizer(object):
             if not isinstance(n, DFEvalValue):
                 return None
             valuelist.append(n.value)
-            if n.width > width:
+            if n.width is not None and n.width > width:
                 width = n.width
+        if operator in ('Divide', 'Mod') and valuelist[1] == 0:
+            return DFUndefined(width)
         rslt = self._evalOperator(operator, tuple(valuelist), width)
-        return DFEvalValue(rslt, width)
+        return DFEvalValue(rslt, self.getWidth(DFOperator(tuple(nextnodes), operator)))
 
     def _evalOperator(self, operator, valuelist, width=default_width):
         if operator == 'Uminus':
@@ -238,11 +240,14 @@ class VerilogOptimizer(object):
         if operator == 'Times':
             return valuelist[0] * valuelist[1]
         if operator == 'Divide':
-            value = valuelist[0] / valuelist[1]
             if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
-                return int(value)
-            return value
+                value = abs(valuelist[0]) // abs(valuelist[1])
+                return value if (valuelist[0] < 0) == (valuelist[1] < 0) else -value
+            return valuelist[0] / valuelist[1]
         if operator == 'Mod':
+            if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
+                value = abs(valuelist[0]) % abs(valuelist[1])
+                return value if valuelist[0] >= 0 else -value
             return valuelist[0] % valuelist[1]
         if operator == 'Plus':
             return valuelist[0] + valuelist[1]
@@ -278,7 +283,7 @@ class VerilogOptimizer(object):
         if operator == 'Xor':
             return valuelist[0] ^ valuelist[1]
         if operator == 'Xnor':
-            return ~(valuelist[0] ^ valuelist[1])
+            return (valuelist[0] ^ valuelist[1]) ^ ((1 << width) - 1)
         if operator == 'Or':
             return valuelist[0] | valuelist[1]
         if operator == 'Land':
-- 
2.43.0


From 0aaec063a9b1f7d69191755f2749a50596361db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:39 +0000
Subject: [PATCH 42/62] fix: optimizing a concatenation of parts of a signal
 with an ascending range merged the wrong parts

---
 pyverilog/dataflow/optimizer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 670d425..b0bdc1e 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -647,10 +647,10 @@ class VerilogOptimizer(object):
             elif not all(isinstance(i, DFEvalValue)
                          for i in (last_node.msb, last_node.lsb, n.msb, n.lsb)):
                 pass
-            elif last_node.lsb.value == n.msb.value + 1:
+            elif self.isAdjacent(last_node, n):
                 ret_nodes.pop()
                 new_node = DFPartselect(last_node.var, last_node.msb, n.lsb)
-                if self.getWidth(last_node.var) == (last_node.msb.value - n.lsb.value + 1):
+                if self.getWidth(last_node.var) == (abs(last_node.msb.value - n.lsb.value) + 1):
                     new_node = last_node.var
                 ret_nodes.append(new_node)
                 last_node = new_node
@@ -661,6 +661,15 @@ class VerilogOptimizer(object):
             return ret_nodes[0]
         return DFConcat(tuple(ret_nodes))
 
+    def isAdjacent(self, left, right):
+        # both select parts of one signal, and right begins where left ends
+        term = self.getTerm(left.var.name) if self.hasTerm(left.var.name) else None
+        msb = self.optimizeConstant(term.msb) if term is not None else None
+        lsb = self.optimizeConstant(term.lsb) if term is not None else None
+        if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue) and msb.value < lsb.value:
+            return left.lsb.value == right.msb.value - 1
+        return left.lsb.value == right.msb.value + 1
+
     def mergeConcat_branch(self, concatnode):
         nodelist = []
         last_node = None
-- 
2.43.0


From f66991a9a4f952f9922c98e70ec3fcbbad59bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:39 +0000
Subject: [PATCH 43/62] fix: optimizing a concatenation of conditionals ignored
 that their branches differ in width

---
 pyverilog/dataflow/optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b0bdc1e..0dd2420 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -680,7 +680,7 @@ class VerilogOptimizer(object):
                 pass
             elif not isinstance(n, DFBranch):
                 pass
-            elif last_node.condnode == n.condnode:
+            elif last_node.condnode == n.condnode and self.sameWidths(last_node) and self.sameWidths(n):
                 truenode_list = (last_node.truenode, n.truenode)
                 falsenode_list = (last_node.falsenode, n.falsenode)
                 new_truenode_list = []
@@ -713,6 +713,11 @@ class VerilogOptimizer(object):
             return nodelist[0]
         return DFConcat(tuple(nodelist))
 
+    def sameWidths(self, branch):
+        if branch.truenode is None or branch.falsenode is None:
+            return True
+        return self.getWidth(branch.truenode) == self.getWidth(branch.falsenode)
+
     def mergeIdenticalNodes(self, node):
         if not isinstance(node, DFOperator):
             return node
-- 
2.43.0


From 4801714326d47ea881cce1b44d3e834045cee3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:39 +0000
Subject: [PATCH 44/62] fix: replacing a multiplication or division by a shift
 changed the width of the result

---
 pyverilog/dataflow/optimizer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 0dd2420..6497fd3 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -569,6 +569,13 @@ class VerilogOptimizer(object):
     def replaceOperator(self, node):
         if not isinstance(node, DFOperator):
             return node
+        if node.operator in ('Times', 'Divide'):
+            # a shift is as wide as its left operand only
+            widths = [self.getWidth(n) for n in node.nextnodes]
+            if isinstance(node.nextnodes[1], DFEvalValue) and widths[1] > widths[0]:
+                return node
+            if not isinstance(node.nextnodes[1], DFEvalValue) and widths[0] > widths[1]:
+                return node
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
-- 
2.43.0


From ad3e2f3e7264924ad368b050af692609de005c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:39 +0000
Subject: [PATCH 45/62] fix: optimizing a select from a concatenation took the
 wrong bits

---
 pyverilog/dataflow/optimizer.py | 99 +++++++++++++--------------------
 1 file changed, 39 insertions(+), 60 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 6497fd3..e1db894 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -490,73 +490,52 @@ class VerilogOptimizer(object):
         return self.takePart(nextnodes, ptr, ptr)
 
     def takePart(self, nextnodes, msb, lsb):
-        widlist = []
-        for n in reversed(nextnodes):  # from LSB
-            widlist.append(self.getWidth(n))
         lsbcut = min(msb.value, lsb.value)
         msbcut = max(msb.value, lsb.value)
-        cutwidth = msbcut - lsbcut + 1
 
-        widsum = 0
-        widpos = 1
-        widoffset = 0
         usednodes = []
-        lsb = -1
-        msb = -1
-        lsboffset = -1
-        msboffset = -1
-        use = False
-        for w in widlist:  # from LSB
-            if lsbcut >= widoffset and lsbcut < widoffset + w:
-                lsb = widoffset
-                lsboffset = lsbcut - lsb
-                use = True
-            if use:
-                widsum += w
-                usednodes.append(self.optimizeConstant(nextnodes[-widpos]))
-            if msbcut >= widoffset and msbcut < widoffset + w:
-                msb = widoffset + w - 1
-                msboffset = msb - msbcut
-                break
-            widpos += 1
-            widoffset += w
-
+        offset = 0
+        for n in reversed(nextnodes):  # from LSB
+            width = self.getWidth(n)
+            first = max(lsbcut, offset)
+            last = min(msbcut, offset + width - 1)
+            if first <= last:
+                usednodes.append(self.takeBits(n, width, last - offset, first - offset))
+            offset += width
+        if msbcut >= offset:
+            usednodes.append(DFUndefined(msbcut - max(lsbcut, offset) + 1))
         usednodes.reverse()
 
-        if len(usednodes) == 0:
-            return DFUndefined(cutwidth)
-        if msboffset < 0:
-            if lsboffset == 0:
-                return DFConcat((DFUndefined(cutwidth - widsum),) + tuple(usednodes))
-            if len(usednodes) == 1:
-                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-            return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-        if lsboffset == 0 and msboffset == 0:
-            if len(usednodes) == 1:
-                return usednodes[0]
-            return DFConcat(tuple(usednodes))
-
         if len(usednodes) == 1:
-            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
-
-        ret_usednodes = []
-        usednodes_cnt = 0
-        for node in reversed(usednodes):  # from LSB
-            if usednodes_cnt == 0 and lsboffset > 0:
-                lsbval = lsboffset
-                msbval = widlist[usednodes_cnt] - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            elif usednodes_cnt == len(usednodes) - 1 and msboffset > 0:
-                lsbval = 0
-                msbval = widlist[usednodes_cnt] - msboffset - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            else:
-                ret_usednodes.append(self.optimizeConstant(node))
-            usednodes_cnt += 1
-        ret_usednodes.reverse()
-        return DFPartselect(DFConcat(tuple(ret_usednodes)), DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
+            return usednodes[0]
+        return DFConcat(tuple(usednodes))
+
+    def takeBits(self, node, width, msb, lsb):
+        # bits of an element of a concatenation, by their positions counted from its right
+        node = self.optimizeConstant(node)
+        if lsb == 0 and msb == width - 1:
+            return node
+        if isinstance(node, DFEvalValue):
+            return self.evalPartselect(node, DFEvalValue(msb), DFEvalValue(lsb))
+        if isinstance(node, DFUndefined):
+            return DFUndefined(msb - lsb + 1)
+        if isinstance(node, DFBranch):
+            return DFBranch(node.condnode, *[None if n is None else self.takePart((n,), DFEvalValue(msb), DFEvalValue(lsb))
+                                             for n in (node.truenode, node.falsenode)])
+        if isinstance(node, DFConcat):
+            return self.takePart(node.nextnodes, DFEvalValue(msb), DFEvalValue(lsb))
+        if isinstance(node, DFPartselect) and isinstance(node.var, DFTerminal)\
+                and isinstance(node.msb, DFEvalValue) and isinstance(node.lsb, DFEvalValue):
+            step = 1 if node.msb.value >= node.lsb.value else -1
+            return DFPartselect(node.var, DFEvalValue(node.lsb.value + step * msb), DFEvalValue(node.lsb.value + step * lsb))
+        if isinstance(node, DFTerminal) and self.hasTerm(node.name):
+            term = self.getTerm(node.name)
+            tmsb = self.optimizeConstant(term.msb)
+            tlsb = self.optimizeConstant(term.lsb)
+            if isinstance(tmsb, DFEvalValue) and isinstance(tlsb, DFEvalValue):
+                step = 1 if tmsb.value >= tlsb.value else -1
+                return DFPartselect(node, DFEvalValue(tlsb.value + step * msb), DFEvalValue(tlsb.value + step * lsb))
+        return DFPartselect(node, DFEvalValue(msb), DFEvalValue(lsb))
 
     def _isPowerOf2(self, value):
         if value <= 0:
-- 
2.43.0


From 856cc434492171b7e67ebf8b200e6f6c98682af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 46/62] fix: a parameter of an instantiated module could not
 depend on a local parameter

---
 pyverilog/dataflow/modulevisitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/modulevisitor.py b/pyverilog/dataflow/modulevisitor.py
index 3d24200..692c700 100644
--- a/pyverilog/dataflow/modulevisitor.py
+++ b/pyverilog/dataflow/modulevisitor.py
@@ -40,10 +40,13 @@ class ModuleVisitor(NodeVisitor):
         self.moduleinfotable.addConst(node.name, node)
         self.moduleinfotable.addParamName(node.name)
 
-    def visit_Locaparam(self, node):
+    def visit_Localparam(self, node):
         self.moduleinfotable.addConst(node.name, node)
 
     # Skip Rule
+    def visit_GenerateStatement(self, node):
+        pass
+
     def visit_Function(self, node):
         pass
 
-- 
2.43.0


From 0b873a51ffefd6705ce7dc4d2de316b4af4fae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:04 +0000
Subject: [PATCH 47/62] fix: optimizing folded constant operations whose value
 depends on the width of their context

---
 pyverilog/dataflow/optimizer.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index e1db894..33bede6 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -118,12 +118,15 @@ class VerilogOptimizer(object):
             lsb = self.getTerm(tree.name).lsb
             const = self.getConstant(tree.name)
             constwidth = const.width
+            value = const.value
             if msb is not None and lsb is not None:
                 msb_val = self.optimizeConstant(msb)
                 lsb_val = self.optimizeConstant(lsb)
                 if isinstance(msb_val, DFEvalValue) and isinstance(lsb_val, DFEvalValue):
                     constwidth = abs(msb_val.value - lsb_val.value) + 1
-            return DFEvalValue(const.value, constwidth)
+                    if isinstance(value, int) and value >= 2 ** constwidth:
+                        value %= 2 ** constwidth
+            return DFEvalValue(value, constwidth)
 
         if isinstance(tree, DFConcat):
             nextnodes_rslts, all_const = self.evalNextnodes(tree.nextnodes)
@@ -777,10 +780,10 @@ class VerilogOptimizer(object):
                 return left
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
-                return DFEvalValue(self._evalOperator('Unot', [0, ], self.getWidth(node)), self.getWidth(node))
+                return DFOperator((DFEvalValue(0, self.getWidth(node)),), 'Unot')
             if isinstance(right, DFOperator) and right.operator == 'Unot'\
                     and right.nextnodes[0] == left:
-                return DFEvalValue(self._evalOperator('Unot', [0, ], self.getWidth(node)), self.getWidth(node))
+                return DFOperator((DFEvalValue(0, self.getWidth(node)),), 'Unot')
             if isinstance(left, DFOperator) and left.operator == 'Ulnot'\
                     and left.nextnodes[0] == right:
                 if self.getWidth(node) == 1:
@@ -1046,6 +1049,16 @@ class VerilogDataflowOptimizer(VerilogOptimizer):
         self.binddict = binddict
         self.resolved_terms = {}
         self.resolved_binddict = {}
+        self.resolving = False
+
+    def evalOperator(self, operator, nextnodes):
+        rslt = VerilogOptimizer.evalOperator(self, operator, nextnodes)
+        if self.resolving or not isinstance(rslt, DFEvalValue) or rslt.isstring or rslt.isfloat:
+            return rslt
+        # a value which does not fit its width depends on the width of the context
+        if rslt.width < self.default_width and (operator in ('Unot', 'Xnor') or not 0 <= rslt.value < 2 ** rslt.width):
+            return None
+        return rslt
 
     def getResolvedTerms(self):
         return self.resolved_terms
@@ -1060,6 +1073,8 @@ class VerilogDataflowOptimizer(VerilogOptimizer):
         return self.terms[name]
 
     def resolveConstant(self):
+        # the value of a parameter has the width of the parameter
+        self.resolving = True
         # 2-pass
         for bk, bv in sorted(self.binddict.items(), key=lambda x: len(x[0])):
             termtype = self.getTerm(bk).termtype
@@ -1075,6 +1090,8 @@ class VerilogDataflowOptimizer(VerilogOptimizer):
                 if isinstance(rslt, DFEvalValue):
                     self.constlist[bk] = rslt
 
+        self.resolving = False
+
         self.resolved_binddict = copy.deepcopy(self.binddict)
         for bk, bv in sorted(self.binddict.items(), key=lambda x: len(x[0])):
             new_bindlist = []
-- 
2.43.0


From 78b6ab8aa78901fbc2c8607d38d6a2a7d4ab5185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:15 +0000
Subject: [PATCH 48/62] fix: a concatenated target took parts of a signal by
 position although its range does not start at 0 or ascends

---
 pyverilog/dataflow/bindvisitor.py | 34 ++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index b8a5a47..5fb756c 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1412,6 +1412,32 @@ class BindVisitor(NodeVisitor):
 
         return tuple(ret)
 
+    def getPart(self, tree, msb, lsb):
+        """ the part of a value at the positions msb..lsb from its LSB """
+        tree = reorder.reorder(tree)
+        if tree is None:
+            return None
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.getPart(tree.truenode, msb, lsb),
+                            self.getPart(tree.falsenode, msb, lsb))
+        if isinstance(tree, DFTerminal):
+            msb = self.getIndexTree(tree.name, msb)
+            lsb = self.getIndexTree(tree.name, lsb)
+        return reorder.reorder(DFPartselect(tree, msb, lsb))
+
+    def getIndexTree(self, name, pos):
+        """ the index in the declared range of the bit at a position from LSB """
+        term_msb, term_lsb = self.getTermWidth(name)
+        high = self.optimize(term_msb)
+        low = self.optimize(term_lsb)
+        if not isinstance(high, DFEvalValue) or not isinstance(low, DFEvalValue):
+            return pos
+        if high.value < low.value:
+            return DFOperator((term_lsb, pos), 'Minus')
+        if low.value == 0:
+            return pos
+        return DFOperator((pos, term_lsb), 'Plus')
+
     def getDsts(self, left, scope):
         if isinstance(left, Lvalue):
             return self.getDsts(left.var, scope)
@@ -1509,7 +1535,7 @@ class BindVisitor(NodeVisitor):
                              part_msb, part_lsb, alwaysinfo):
         tree = raw_tree
         if len(dst) > 1:
-            tree = reorder.reorder(DFPartselect(raw_tree, part_msb, part_lsb))
+            tree = self.getPart(raw_tree, part_msb, part_lsb)
         bind = Bind(tree, name, msb, lsb, ptr, alwaysinfo)
         self.frames.addNonblockingAssign(name, bind)
 
@@ -1534,8 +1560,7 @@ class BindVisitor(NodeVisitor):
         for name, msb, lsb, ptr, part_msb, part_lsb in renamed_dst:
             tree = raw_tree
             if len(renamed_dst) > 1:
-                tree = reorder.reorder(
-                    DFPartselect(tree, part_msb, part_lsb))
+                tree = self.getPart(tree, part_msb, part_lsb)
             bind = Bind(tree, name, msb, lsb, ptr)
             self.dataflow.addBind(name, bind)
 
@@ -1566,8 +1591,7 @@ class BindVisitor(NodeVisitor):
                  num_dst=1, alwaysinfo=None, bindtype=None):
 
         if num_dst > 1:
-            raw_tree = reorder.reorder(
-                DFPartselect(raw_tree, part_msb, part_lsb))
+            raw_tree = self.getPart(raw_tree, part_msb, part_lsb)
 
         current_bindlist = self.getBindlist(name)
         current_tree = None
-- 
2.43.0


From caf4a06d76dbc83dbe0515e67b31805ca644f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:21 +0000
Subject: [PATCH 49/62] fix: a code parser for a source given as a string could
 be run only once and left temporary files behind

---
 pyverilog/vparser/preprocessor.py | 47 ++++++++++++++++---------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index a7c3ad8..e478303 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -38,27 +38,8 @@ class VerilogPreprocessor(object):
             filelist = list(filelist)
 
         # Elements in `filelist` can either be raw Verilog files, or Verilog code
-        # in python string. The following loop iterates through these `sources`,
-        # and normalizes all of them into files.
-        #
-        # For Verilog code in python string, the contents of the string is stored
-        # in a temporary file for further use with `iverilog`.
-        self.temp_files_paths = []
-        self.filelist = []
-
-        for source in filelist:
-            # If `source` is verilog code in python strings
-            if not os.path.isfile(source):
-                temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
-                with open(temp_fd, 'w') as f:
-                    f.write(source)
-                    f.write('\n')
-
-                self.temp_files_paths.append(temp_path)
-                self.filelist.append(temp_path)
-
-            else: # else if it is normal verilog file path
-                self.filelist.append(source)
+        # in python string.
+        self.filelist = list(filelist)
 
         iverilog = os.environ.get('PYVERILOG_IVERILOG')
         if iverilog is None:
@@ -86,8 +67,9 @@ class VerilogPreprocessor(object):
         self.iv.append(outputfile)
 
     def preprocess(self):
-        cmd = self.iv + list(self.filelist)
+        temp_files_paths = []
         try:
+            cmd = self.iv + self._normalize(temp_files_paths)
             subprocess.check_call(cmd)
         except subprocess.CalledProcessError:
             # the output of a failed run is incomplete
@@ -96,9 +78,28 @@ class VerilogPreprocessor(object):
             raise
         finally:
             # Removing the temporary files that were created
-            for temp_file_path in self.temp_files_paths:
+            for temp_file_path in temp_files_paths:
                 os.remove(temp_file_path)
 
+    def _normalize(self, temp_files_paths):
+        # The following loop iterates through the sources, and normalizes all of
+        # them into files. For Verilog code in python string, the contents of the
+        # string is stored in a temporary file for further use with `iverilog`.
+        filelist = []
+        for source in self.filelist:
+            # If `source` is verilog code in python strings
+            if not os.path.isfile(source):
+                temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
+                temp_files_paths.append(temp_path)
+                with open(temp_fd, 'w') as f:
+                    f.write(source)
+                    f.write('\n')
+                filelist.append(temp_path)
+
+            else: # else if it is normal verilog file path
+                filelist.append(source)
+        return filelist
+
 
 def preprocess(
     filelist,
-- 
2.43.0


From 84a4dcc9a767819d74c025a48befee8af0036e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:21 +0000
Subject: [PATCH 50/62] fix: classifying the assignments of a subset called a
 function that does not exist

---
 pyverilog/dataflow/merge.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index c3216aa..1809002 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -69,8 +69,6 @@ class VerilogDataflowMerge(object):
         termtype = self.getTermtype(termname)
         if signaltype.isWire(termtype):
             return 'assign'
-        if signaltype.isWireArray(termtype):
-            return 'assign'
         if signaltype.isReg(termtype):
             if bind.isClockEdge():
                 return 'clockedge'
-- 
2.43.0


From d46f4ed6eb14f44cd389ee7b58332eb8fcfdad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 51/62] fix: the order of a subset and of the code generated
 from it changed from run to run

---
 pyverilog/dataflow/subset.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 47df2d2..af6a5f3 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -55,7 +55,7 @@ class VerilogSubset(VerilogDataflowMerge):
                     ret_binds = util.dictlistmerge(ret_binds, r_binds)
 
         sources = self.getBindSources(termname)
-        for source in sources:
+        for source in sorted(sources, key=str):
             if source in visited_sources:
                 continue
             nextsources.add(source)
@@ -91,7 +91,7 @@ class VerilogSubset(VerilogDataflowMerge):
         always_combination = collections.OrderedDict()
 
         # discretion the signal desclaration
-        for source in visited_sources:
+        for source in sorted(visited_sources, key=str):
             termtype = self.getTermtype(source)
             if signaltype.isParameter(termtype):
                 continue
@@ -104,16 +104,19 @@ class VerilogSubset(VerilogDataflowMerge):
                 assign_type = self.getAssignType(left, right)
                 if assign_type == 'clockedge':
                     if not left in always_clockedge:
-                        always_clockedge[left] = set([])
-                    always_clockedge[left].add(right)
+                        always_clockedge[left] = []
+                    if right not in always_clockedge[left]:
+                        always_clockedge[left].append(right)
                 elif assign_type == 'combination':
                     if not left in always_combination:
-                        always_combination[left] = set([])
-                    always_combination[left].add(right)
+                        always_combination[left] = []
+                    if right not in always_combination[left]:
+                        always_combination[left].append(right)
                 elif assign_type == 'assign':
                     if not left in assign:
-                        assign[left] = set([])
-                    assign[left].add(right)
+                        assign[left] = []
+                    if right not in assign[left]:
+                        assign[left].append(right)
                 elif assign_type == 'parameter':
                     parameter[left] = right
                     continue
-- 
2.43.0


From d99609c60d5970bd81e4c9daaaf708e8c9b01080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:06 +0000
Subject: [PATCH 52/62] fix: <= was an unknown comparator to the control flow
 analysis, and < 0 held in every state

---
 pyverilog/utils/inference.py  | 5 +----
 pyverilog/utils/signaltype.py | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index d241360..4c0f35a 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -30,9 +30,6 @@ def infer(op, node):
 def op_LessThan(val):
     minval = 0
     maxval = val - 1
-    if maxval < 0:
-        minval = None
-        maxval = None
     return InferredValue(minval, maxval)
 
 
@@ -42,7 +39,7 @@ def op_GreaterThan(val):
     return InferredValue(minval, maxval)
 
 
-def op_LassEq(val):
+def op_LessEq(val):
     minval = 0
     maxval = val
     return InferredValue(minval, maxval)
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index 4371c52..da3e432 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -85,7 +85,7 @@ def isReset(search_str):
 
 
 # Operator
-compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
 not_ops = ('Ulnot', 'Unot')
 split_and_ops = ('And', 'Land')
 split_or_ops = ('Or', 'Lor')
-- 
2.43.0


From 125cca8f15ee7c8ea8ab02f7dbd1dfa22e56f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:06 +0000
Subject: [PATCH 53/62] fix: transitions from states excluded by earlier
 conditions, conditions comparing the state with a signal, and reductions of
 vectors

---
 pyverilog/controlflow/transition.py | 46 +++++++++++++++--------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 084c113..3fa1b65 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -25,9 +25,10 @@ def walkCondlist(condlist, termname, termwidth=32):
     for cond in condlist:
         rslt = walkCond(cond, termname, termwidth)
         if node and rslt:
-            node = andStateNodeList(node, rslt)
-        elif rslt:
-            node = rslt
+            rslt = andStateNodeList(node, rslt)
+        if rslt is None:  # the conditions never hold together
+            return None
+        node = rslt
     return node
 
 
@@ -45,10 +46,13 @@ def walkCond(cond, termname, termwidth=32):
 
 
 def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
+    maxvalue = util.maxValue(termwidth)
+    if not signaltype.isNot(cond.operator):
+        return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
     node = walkCond(cond.nextnodes[0], termname, termwidth)
-    if signaltype.isNot(cond.operator):
-        node = notStateNodeList(node)
-    return node
+    if node is None:
+        return StateNode(maxvalue=maxvalue, isany=True)
+    return notStateNodeList(node)
 
 
 def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
@@ -72,17 +76,19 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
 
-    if isinstance(l, DFTerminal) and l.name == termname:
+    if not signaltype.isCompare(cond.operator):
+        return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
+
+    if isinstance(l, DFTerminal) and l.name == termname and isinstance(r, DFEvalValue):
         infval = inference.infer(cond.operator, r)
         return createStateNode(infval, termwidth)
-    if isinstance(r, DFTerminal) and r.name == termname:
+    if isinstance(r, DFTerminal) and r.name == termname and isinstance(l, DFEvalValue):
         new_op = re.sub('Greater', 'TMP', cond.operator)
         new_op = re.sub('Less', 'Greater', new_op)
         new_op = re.sub('TMP', 'Less', new_op)
         infval = inference.infer(new_op, l)
         return createStateNode(infval, termwidth)
 
-    maxvalue = util.maxValue(termwidth)
     return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
 
@@ -93,12 +99,9 @@ def notStateNodeList(node):
         new_nodes = []
         for n in node.nodelist:
             new_nodes.append(notStateNode(n))
-        ret_node = None
-        for n in new_nodes:
-            if ret_node is None:
-                ret_node = n
-            else:
-                ret_node = andStateNodeList(ret_node, n)
+        ret_node = new_nodes[0]
+        for n in new_nodes[1:]:
+            ret_node = andStateNodeList(ret_node, n)
         return ret_node
     return None
 
@@ -125,12 +128,8 @@ def orStateNodeList(lnode, rnode):
 
 
 def andStateNodeList(lnode, rnode):
-    if lnode is None and rnode is None:
+    if lnode is None or rnode is None:
         return None
-    if lnode is None:
-        return rnode
-    if rnode is None:
-        return lnode
 
     if isStateNode(lnode) and isStateNode(rnode):
         return andStateNode(lnode, rnode)
@@ -167,6 +166,8 @@ def andStateNodeList(lnode, rnode):
 
 def notStateNode(node):
     if node.isany:
+        if node.transcond is None:
+            return None
         new_transcond = _not_transcond(node.transcond)
         return StateNode(transcond=new_transcond, maxvalue=node.maxvalue, isany=True)
     new_range_pairs = _not_range_pairs(node)
@@ -272,9 +273,10 @@ def createStateNode(infval, width):
     maxval = infval.maxval
     if minval is None:
         minval = 0
-    if maxval is None:
+    if maxval is None or maxval > util.maxValue(width):
         maxval = util.maxValue(width)
-    ret = StateNode(((minval, maxval),), 0, util.maxValue(width), None)
+    range_pairs = ((minval, maxval),) if minval <= maxval else ()
+    ret = StateNode(range_pairs, 0, util.maxValue(width), None)
     if infval.inv:
         ret = notStateNodeList(ret)
     return ret
-- 
2.43.0


From b6cfbe6237c68e819186fe107af05f9c77b06e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:06 +0000
Subject: [PATCH 54/62] fix: a state constant wider than the state register was
 not truncated

---
 pyverilog/controlflow/controlflow_analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 0ebae8a..1ab2c4b 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -76,10 +76,10 @@ class VerilogControlflowAnalyzer(VerilogSubset):
             statenode_list = node.nodelist if isinstance(
                 node, transition.StateNodeList) else [node, ]
             for statenode in statenode_list:
-                fsm.construct(func.value, statenode)
+                fsm.construct(func.value & util.maxValue(width), statenode)
         return fsm
 
-    def getFuncdict(self, termname, delaycnt=0):
+    def getFuncdict(self, termname, delaycnt=0, visited=frozenset()):
         termtype = self.getTermtype(termname)
         if not self.isClockEdge(termname):
             return {}, 0
-- 
2.43.0


From a7676162aece8de2ee2351123dddfe2b048471d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:06 +0000
Subject: [PATCH 55/62] fix: endless recursion for a state register that is
 only reset

---
 pyverilog/controlflow/controlflow_analyzer.py | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 1ab2c4b..15e17bb 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -90,8 +90,9 @@ class VerilogControlflowAnalyzer(VerilogSubset):
         funcdict = splitter.remove_reset_condition(funcdict)
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
             next_term = list(funcdict.values())[0]
-            if isinstance(next_term, DFTerminal):
-                return self.getFuncdict(next_term.name, delaycnt + 1)
+            visited = visited | {termname}
+            if isinstance(next_term, DFTerminal) and next_term.name not in visited:
+                return self.getFuncdict(next_term.name, delaycnt + 1, visited)
         return funcdict, delaycnt
 
     def isFsmVar(self, termname):
@@ -251,23 +252,9 @@ class FiniteStateMachine(object):
 
     def get_loop(self):
         loops = set([])
-        loop_node_cnt = {}
         for k in sorted(self.fsm.keys()):
-            if not k in self.fsm:
-                continue
-            if not k in loop_node_cnt:
-                loop_node_cnt[k] = 0
-            if loop_node_cnt[k] >= len(self.fsm[k].values()):
-                continue
-            paths = self.get_looppath(k)
-            for path in paths:
-                rotated = self.rotate(path)
-                if rotated not in loops:
-                    loops.add(rotated)
-                    for r in rotated:
-                        if not r in loop_node_cnt:
-                            loop_node_cnt[r] = 0
-                        loop_node_cnt[r] += 1
+            for path in self.get_looppath(k):
+                loops.add(self.rotate(path))
         return loops
 
     def rotate(self, path):
-- 
2.43.0


From aaaac2239f43ef89b86a5b1fc47e985d377a10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:06 +0000
Subject: [PATCH 56/62] fix: loops of state machines were missed, or listed
 with a state visited twice

---
 pyverilog/controlflow/controlflow_analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 15e17bb..acc38d7 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -282,9 +282,10 @@ class FiniteStateMachine(object):
             return paths
         if not node in self.fsm:
             return paths
+        visited = visited | set([node])
         nextnodes = set(self.fsm[node].values()) - visited
         for n in nextnodes:
-            r = self._looppath(src, n, visited=visited | set([node]), cnt=cnt + 1)
+            r = self._looppath(src, n, visited=visited, cnt=cnt + 1)
             if len(r) > 0:
                 for np in r:
                     paths.add((node,) + np)
-- 
2.43.0


From 81a21a30e901863c088196ccbeaed117a5a9b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:06 +0000
Subject: [PATCH 57/62] fix: active conditions of a signal with an
 unconditional value raised TypeError

---
 pyverilog/controlflow/active_analyzer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index 273f3cc..d24d7a4 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -33,7 +33,6 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
         funcdict = splitter.remove_reset_condition(funcdict)
 
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
-            func = funcdict.values()[0]
             return {termname: (('any', None), )}
 
         active_conditions = {}
-- 
2.43.0


From 14d1c892375262902d9e2cd61de643450bcdc959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:21 +0000
Subject: [PATCH 58/62] fix: generated code lacked clocks other than the given
 one, and had a stray comma in a module without ports

---
 pyverilog/dataflow/dataflow_codegen.py | 18 +++++++++---------
 pyverilog/dataflow/subset.py           |  1 +
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index e2d24aa..7410314 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -58,11 +58,7 @@ class VerilogCodeGenerator(VerilogSubset):
         modulehead = ''
         modulehead += '`default_nettype none\n'
         modulehead += 'module ' + self.modulename + '('
-        modulehead += '\n' + (' ' * self.num_indent)
-        modulehead += self.clock_name + ', '
-        modulehead += self.reset_name + ', '
-        modulehead += self.enable_name + ', '
-        modulehead += '\n' + (' ' * self.num_indent)
+        ports = [self.clock_name, self.reset_name, self.enable_name]
 
         for tk, tv in terms.items():
             scope = util.getScope(tk)
@@ -73,12 +69,16 @@ class VerilogCodeGenerator(VerilogSubset):
                 if signaltype.isInput(termtype) and tk == util.toTermname((self.topmodule, self.clock_name)):
                     continue
                 if signaltype.isInput(termtype):
-                    modulehead += util.toFlatname(tk) + ', '
+                    ports.append(util.toFlatname(tk))
                 elif signaltype.isInout(termtype):
-                    modulehead += util.toFlatname(tk) + ', '
+                    ports.append(util.toFlatname(tk))
                 elif signaltype.isOutput(termtype):
-                    modulehead += util.toFlatname(tk) + ', '
-        modulehead = modulehead[:-2] + ');\n\n'
+                    ports.append(util.toFlatname(tk))
+        indent = '\n' + (' ' * self.num_indent)
+        modulehead += indent + ', '.join(ports[:3])
+        if len(ports) > 3:
+            modulehead += ', ' + indent + ', '.join(ports[3:])
+        modulehead += ');\n\n'
         return modulehead
 
     def _system_io(self, clock_name, reset_name, enable_name):
diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index af6a5f3..5d75727 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -50,6 +50,7 @@ class VerilogSubset(VerilogDataflowMerge):
             if bind.isClockEdge():
                 clock_name = bind.getClockName()
                 if clock_name != util.toTermname((self.topmodule, self.clock_name)):
+                    nextsources.add(clock_name)
                     r_binds, r_sources = self.getBindSubset(clock_name, nextsources)
                     nextsources |= r_sources
                     ret_binds = util.dictlistmerge(ret_binds, r_binds)
-- 
2.43.0


From ac8c1e7b79e7679c3c8285021d8c673022d6f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:38 +0000
Subject: [PATCH 59/62] fix: generated code dropped the bit of a clock or reset
 and declared loop variables without a kind

---
 pyverilog/dataflow/dataflow.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index da85be2..08da82f 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -763,8 +763,11 @@ class Term(object):
             code += 'wire '
         if signaltype.isRename(self.termtype):
             code += 'wire '
+        if signaltype.isGenvar(self.termtype):
+            code += 'genvar '
 
         if (not signaltype.isInteger(self.termtype)
+                and not signaltype.isGenvar(self.termtype)
                 and self.msb is not None and self.lsb is not None):
             code += '[' + self.msb.tocode(None) + ':' + self.lsb.tocode(None) + '] '
         code += flatname  # signal name
@@ -877,10 +880,14 @@ class Bind(object):
         if self.alwaysinfo.clock_edge is not None and self.alwaysinfo.clock_name is not None:
             code += self.alwaysinfo.clock_edge + ' '
             code += util.toFlatname(self.alwaysinfo.clock_name)
+            if self.alwaysinfo.clock_bit:
+                code += '[%d]' % self.alwaysinfo.clock_bit
         if self.alwaysinfo.reset_edge is not None and self.alwaysinfo.reset_name is not None:
             code += ' or '
             code += self.alwaysinfo.reset_edge + ' '
             code += util.toFlatname(self.alwaysinfo.reset_name)
+            if self.alwaysinfo.reset_bit:
+                code += '[%d]' % self.alwaysinfo.reset_bit
         code += ') begin\n'
         if isinstance(self.tree, DFBranch):
             code += self.tree.tocode(dest, always='clockedge')
-- 
2.43.0


From 465a0e60e210832dd726c575fef27c1e0b744ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:10 +0000
Subject: [PATCH 60/62] fix: generated code used parameters before their
 declaration

---
 pyverilog/dataflow/dataflow_codegen.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index 7410314..c326c5d 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -11,6 +11,7 @@ from __future__ import print_function
 import sys
 import os
 import re
+import collections
 
 import pyverilog.utils.util as util
 import pyverilog.utils.signaltype as signaltype
@@ -120,6 +121,20 @@ class VerilogCodeGenerator(VerilogSubset):
         terms, parameter, assign, always_clockedge, always_combination = self.getEntire()
         return self._toCode(terms, parameter, assign, always_clockedge, always_combination)
 
+    def _parameter_order(self, parameter):
+        order = collections.OrderedDict()
+
+        def visit(name):
+            if name not in parameter or name in order:
+                return
+            for source in sorted(self.getTreeSources(parameter[name].tree), key=str):
+                visit(source)
+            order[name] = True
+
+        for name in parameter:
+            visit(name)
+        return list(order)
+
     def _toCode(self, terms, parameter, assign, always_clockedge, always_combination):
         # module header
         modulehead = self._modulehead(terms)
@@ -128,6 +143,10 @@ class VerilogCodeGenerator(VerilogSubset):
         # clock, reset, control input definition
         code += self._system_io(self.clock_name, self.reset_name, self.enable_name)
 
+        # parameters, each after the ones it depends on
+        for pk in self._parameter_order(parameter):
+            code += parameter[pk].tocode()
+
         # general signal definition
         for tk, tv in terms.items():
             termtype = self.getTermtype(tk)
@@ -137,9 +156,6 @@ class VerilogCodeGenerator(VerilogSubset):
                 continue
             code += tv.tocode()
 
-        for pk, pv in parameter.items():
-            code += pv.tocode()
-
         # assign
         for ak, avv in assign.items():
             cnt = 0
-- 
2.43.0


From 1935c98ea1d32bc66c7df399a6bca5342d6ed0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:27 +0000
Subject: [PATCH 61/62] fix: generated code dropped the ranges of parameters

---
 pyverilog/dataflow/dataflow_codegen.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index c326c5d..aa5ea35 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -15,6 +15,7 @@ import collections
 
 import pyverilog.utils.util as util
 import pyverilog.utils.signaltype as signaltype
+from pyverilog.dataflow.dataflow import DFIntConst
 from pyverilog.dataflow.subset import VerilogSubset
 
 
@@ -121,13 +122,23 @@ class VerilogCodeGenerator(VerilogSubset):
         terms, parameter, assign, always_clockedge, always_combination = self.getEntire()
         return self._toCode(terms, parameter, assign, always_clockedge, always_combination)
 
+    def _parameter(self, name, bind):
+        term = self.getTerm(name)
+        code = bind.parameterinfo + ' '
+        # a parameter without a range has the term of an integer
+        if term.msb != DFIntConst('31') or term.lsb != DFIntConst('0'):
+            code += '[' + term.msb.tocode(None) + ':' + term.lsb.tocode(None) + '] '
+        dest = bind.getdest()
+        code += dest + ' = ' + bind.tree.tocode(dest) + ';\n'
+        return code
+
     def _parameter_order(self, parameter):
         order = collections.OrderedDict()
 
         def visit(name):
             if name not in parameter or name in order:
                 return
-            for source in sorted(self.getTreeSources(parameter[name].tree), key=str):
+            for source in sorted(self.getBindSources(name), key=str):
                 visit(source)
             order[name] = True
 
@@ -145,7 +156,7 @@ class VerilogCodeGenerator(VerilogSubset):
 
         # parameters, each after the ones it depends on
         for pk in self._parameter_order(parameter):
-            code += parameter[pk].tocode()
+            code += self._parameter(pk, parameter[pk])
 
         # general signal definition
         for tk, tv in terms.items():
-- 
2.43.0


From 42a2187b482ec12b859cdd868764d0cf43b891c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:03 +0000
Subject: [PATCH 62/62] fix: a clock or reset selected with a sized or computed
 index was rejected

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 5fb756c..90ac88b 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -257,7 +257,7 @@ class BindVisitor(NodeVisitor):
 
             if isinstance(l.sig, pyverilog.vparser.ast.Pointer):
                 signame = self._get_signal_name(l.sig.var)
-                bit = int(l.sig.ptr.value)
+                bit = self.optimize(self.getTree(l.sig.ptr, scope)).value
             else:
                 signame = self._get_signal_name(l.sig)
                 bit = 0
-- 
2.43.0

