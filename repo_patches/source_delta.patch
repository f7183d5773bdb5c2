From e46d4218125f9060c56c742ecb77783581a1a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 01/92] fix: record the end line of loops, fork/join, wait and
 event statements

---
 pyverilog/vparser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 0de0264..95b552e 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1569,11 +1569,13 @@ class VerilogParser(object):
         'parallelblock : FORK block_statements JOIN'
         p[0] = ParallelBlock(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(3)
 
     def p_parallelblock_empty(self, p):
         'parallelblock : FORK JOIN'
         p[0] = ParallelBlock((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_if_statement(self, p):
@@ -1625,6 +1627,7 @@ class VerilogParser(object):
         'for_statement : FOR LPAREN forpre forcond forpost RPAREN forcontent_statement'
         p[0] = ForStatement(p[3], p[4], p[5], p[7], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[7].end_lineno
 
     def p_forpre(self, p):
         'forpre : blocking_substitution'
@@ -1665,6 +1668,7 @@ class VerilogParser(object):
         'while_statement : WHILE LPAREN cond RPAREN whilecontent_statement'
         p[0] = WhileStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno
 
     def p_whilecontent_statement(self, p):
         'whilecontent_statement : basic_statement'
@@ -1747,12 +1751,14 @@ class VerilogParser(object):
         'event_statement : senslist SEMICOLON'
         p[0] = EventStatement(p[1], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_wait_statement(self, p):
         'wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement'
         p[0] = WaitStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(5) if p[5] is None else p[5].end_lineno
 
     def p_waitcontent_statement(self, p):
         'waitcontent_statement : basic_statement'
@@ -1769,6 +1775,7 @@ class VerilogParser(object):
         'forever_statement : FOREVER basic_statement'
         p[0] = ForeverStatement(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[2].end_lineno
 
     # --------------------------------------------------------------------------
     def p_instance(self, p):
-- 
2.43.0


From dd8ebba84e1ded5ed87ec9702a761613a784570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 02/92] fix: indexed part selects denote width bits from their
 base

---
 pyverilog/vparser/parser.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 95b552e..923032a 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -849,6 +849,17 @@ class VerilogParser(object):
         p[0].end_lineno = p.lineno(7)
 
     # --------------------------------------------------------------------------
+    def create_indexed_partselect(self, p, plus):
+        # var[base +: width] -> var[base+width-1 : base]
+        # var[base -: width] -> var[base : base-width+1]
+        base, width, lineno = p[3], p[5], p.lineno(3)
+        one = IntConst('1', lineno=lineno)
+        if plus:
+            msb = Minus(Plus(base, width, lineno=lineno), one, lineno=lineno)
+            return Partselect(p[1], msb, base, lineno=p.lineno(1))
+        lsb = Plus(Minus(base, width, lineno=lineno), one, lineno=lineno)
+        return Partselect(p[1], base, lsb, lineno=p.lineno(1))
+
     def p_lpartselect_lpointer(self, p):
         'lpartselect : pointer LBRACKET expression COLON expression RBRACKET'
         p[0] = Partselect(p[1], p[3], p[5], lineno=p.lineno(1))
@@ -856,12 +867,12 @@ class VerilogParser(object):
 
     def p_lpartselect_lpointer_plus(self, p):
         'lpartselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p, plus=True)
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_lpointer_minus(self, p):
         'lpartselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p, plus=False)
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect(self, p):
@@ -871,12 +882,12 @@ class VerilogParser(object):
 
     def p_lpartselect_plus(self, p):
         'lpartselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p, plus=True)
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_minus(self, p):
         'lpartselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p, plus=False)
         p.set_lineno(0, p.lineno(1))
 
     def p_lpointer(self, p):
@@ -1217,14 +1228,12 @@ class VerilogParser(object):
 
     def p_partselect_plus(self, p):
         'partselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p, plus=True)
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_minus(self, p):
         'partselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p, plus=False)
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer(self, p):
@@ -1234,14 +1243,12 @@ class VerilogParser(object):
 
     def p_partselect_pointer_plus(self, p):
         'partselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p, plus=True)
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer_minus(self, p):
         'partselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self.create_indexed_partselect(p, plus=False)
         p.set_lineno(0, p.lineno(1))
 
     def p_pointer(self, p):
-- 
2.43.0


From 1c0d4756458d7b4b5afdc41a366d1c5e5363976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 03/92] fix: read ^~ as the xnor operator

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8fe6628..914f918 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -129,7 +129,7 @@ class VerilogLexer(object):
 
     t_NOR = r'~\|'
     t_NAND = r'~\&'
-    t_XNOR = r'~\^'
+    t_XNOR = r'~\^|\^~'
     t_OR = r'\|'
     t_AND = r'\&'
     t_XOR = r'\^'
-- 
2.43.0


From f1d3401b30133be284224ff1c56021bf9a6eea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 04/92] fix: real declarations keep their names

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 923032a..3d67ac1 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -727,7 +727,7 @@ class VerilogParser(object):
     # Real
     def p_realdecl(self, p):
         'realdecl : REAL realnamelist SEMICOLON'
-        reallist = [Real(p[1],
+        reallist = [Real(r,
                          Width(msb=IntConst('31', lineno=p.lineno(2)),
                                lsb=IntConst('0', lineno=p.lineno(2)),
                                lineno=p.lineno(2)),
-- 
2.43.0


From f3ba85f4307aadd790a065706bd62d8fd5d1d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 05/92] fix: a delayed net declaration assignment keeps its
 name

---
 pyverilog/vparser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 3d67ac1..51b5e05 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -674,9 +674,9 @@ class VerilogParser(object):
 
     def p_declassign_element_delay(self, p):
         'declassign_element : delays ID EQUALS delays rvalue'
-        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(1)), lineno=p.lineno(2)),
+        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(2)), lineno=p.lineno(2)),
                         p[5], p[1], p[4], lineno=p.lineno(2))
-        p[0] = (p[1], assign)
+        p[0] = (p[2], assign)
         p.set_lineno(0, p.lineno(2))
 
     # Integer
-- 
2.43.0


From f6795084648d9709bb64a71b460d83aff53af3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 06/92] fix: accept signed binary literals starting with X

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 914f918..8a30e68 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -181,7 +181,7 @@ class VerilogLexer(object):
     t_DOLLER = r'\$'
 
     bin_number = '[0-9]*\'[bB][0-1xXzZ?][0-1xXzZ?_]*'
-    signed_bin_number = '[0-9]*\'[sS][bB][0-1xZzZ?][0-1xXzZ?_]*'
+    signed_bin_number = '[0-9]*\'[sS][bB][0-1xXzZ?][0-1xXzZ?_]*'
     octal_number = '[0-9]*\'[oO][0-7xXzZ?][0-7xXzZ?_]*'
     signed_octal_number = '[0-9]*\'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*'
     hex_number = '[0-9]*\'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-- 
2.43.0


From 274184a2159b9d105103a3c73b0c141e0825a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 07/92] fix: a port name without a type takes all of its
 predecessor's type

---
 pyverilog/vparser/parser.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 51b5e05..c1ba482 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -339,26 +339,14 @@ class VerilogParser(object):
     def p_ioports(self, p):
         'ioports : ioports COMMA ioport'
         if isinstance(p[3], str):
-            t = None
-            for r in reversed(p[1]):
-                if isinstance(r.first, Input):
-                    t = Ioport(Input(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and r.second is None:
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and isinstance(r.second, Reg):
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               Reg(name=p[3], width=r.first.width,
-                                   lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Inout):
-                    t = Ioport(Inout(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
+            # a bare name takes the direction, kind, range and signedness of
+            # the preceding port
+            prev = p[1][-1]
+            first, second = [
+                None if v is None else
+                type(v)(name=p[3], width=v.width, signed=v.signed, lineno=p.lineno(3))
+                for v in (prev.first, prev.second)]
+            t = Ioport(first, second, lineno=p.lineno(3))
             p[0] = p[1] + (t,)
         else:
             p[0] = p[1] + (p[3],)
-- 
2.43.0


From b0a9ce065bc52f664bd2060e4628a2918333a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 08/92] fix: unique case keeps its expression and items

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index c1ba482..c22e51c 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1691,7 +1691,7 @@ class VerilogParser(object):
 
     def p_unique_case_statement(self, p):
         'unique_case_statement : UNIQUE CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE'
-        p[0] = UniqueCaseStatement(p[3], p[5], lineno=p.lineno(1))
+        p[0] = UniqueCaseStatement(p[4], p[6], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(7)
 
-- 
2.43.0


From 0210cd226b0c8157a039a0d2a7115f9fa12c8c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 09/92] fix: parse integer signed declarations

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index c22e51c..707195a 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -688,7 +688,7 @@ class VerilogParser(object):
                                  lineno=p.lineno(3)),
                            signed=True,
                            value=rvalue,
-                           lineno=p.lineno(3)) for rname, rvalue in p[2]]
+                           lineno=p.lineno(3)) for rname, rvalue in p[3]]
         p[0] = Decl(tuple(intlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
-- 
2.43.0


From 8fbd6c3b898204334275819ac5692df5cda47df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 10/92] fix: generate disable statements with the right keyword

---
 pyverilog/ast_code_generator/template/disable.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/template/disable.txt b/pyverilog/ast_code_generator/template/disable.txt
index a0a9ae8..1752fde 100644
--- a/pyverilog/ast_code_generator/template/disable.txt
+++ b/pyverilog/ast_code_generator/template/disable.txt
@@ -1 +1 @@
-diable {{ name }}
+disable {{ name }}
-- 
2.43.0


From 513dbb9d6c5e4052071051ad267f3f9cbd9942a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 11/92] fix: an absent event control is not read or written as
 @*

---
 pyverilog/ast_code_generator/codegen.py                  | 1 +
 pyverilog/ast_code_generator/template/always.txt         | 2 +-
 pyverilog/ast_code_generator/template/eventstatement.txt | 2 +-
 pyverilog/vparser/parser.py                              | 4 ++--
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9b87569..6fdcb42 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -649,6 +649,7 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
+            'keyword': 'always',
             'sens_list': self.visit(node.sens_list),
             'statement': self.visit(node.statement),
         }
diff --git a/pyverilog/ast_code_generator/template/always.txt b/pyverilog/ast_code_generator/template/always.txt
index 299eee8..23af625 100644
--- a/pyverilog/ast_code_generator/template/always.txt
+++ b/pyverilog/ast_code_generator/template/always.txt
@@ -1,3 +1,3 @@
 
-always @({{ sens_list }}) {{ statement }}
+{{ keyword }} {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
 
diff --git a/pyverilog/ast_code_generator/template/eventstatement.txt b/pyverilog/ast_code_generator/template/eventstatement.txt
index 098301c..fafecdd 100644
--- a/pyverilog/ast_code_generator/template/eventstatement.txt
+++ b/pyverilog/ast_code_generator/template/eventstatement.txt
@@ -1 +1 @@
-@({{ senslist }});
+{% if senslist != '' %}@({{ senslist }}){% endif %};
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 707195a..5eea72a 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1358,8 +1358,8 @@ class VerilogParser(object):
 
     def p_sens_empty(self, p):
         'senslist : empty'
-        p[0] = SensList(
-            (Sens(None, 'all', lineno=p.lineno(1)),), lineno=p.lineno(1))
+        # no event control, which is not the same as @*
+        p[0] = SensList((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_sens_level(self, p):
-- 
2.43.0


From bc0bba7624217eeb5df9f5d84f1cc1dc32222778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 12/92] fix: generate always_ff, always_comb and always_latch

---
 pyverilog/ast_code_generator/codegen.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 6fdcb42..543c882 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -645,17 +645,25 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = indent_multiline_assign(rslt)
         return rslt
 
-    def visit_Always(self, node):
-        filename = getfilename(node)
-        template = self.get_template(filename)
+    def visit_Always(self, node, keyword='always'):
+        template = self.get_template('always.txt')
         template_dict = {
-            'keyword': 'always',
+            'keyword': keyword,
             'sens_list': self.visit(node.sens_list),
             'statement': self.visit(node.statement),
         }
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node, 'always_ff')
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node, 'always_comb')
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node, 'always_latch')
+
     def visit_SensList(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-- 
2.43.0


From f4bad0e5b26f9d37d6da0fdec0059bd2ebd6d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 13/92] fix: generate the arithmetic left shift operator

---
 pyverilog/ast_code_generator/codegen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 543c882..d1a6273 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -491,12 +491,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rorder = op2order(node.right.__class__.__name__)
         left = self.visit(node.left)
         right = self.visit(node.right)
-        if ((not isinstance(node.left, (Sll, Srl, Sra,
+        if ((not isinstance(node.left, (Sll, Srl, Sla, Sra,
                                         LessThan, GreaterThan, LessEq, GreaterEq,
                                         Eq, NotEq, Eql, NotEql))) and
                 (lorder is not None and lorder <= order)):
             left = del_paren(left)
-        if ((not isinstance(node.right, (Sll, Srl, Sra,
+        if ((not isinstance(node.right, (Sll, Srl, Sla, Sra,
                                          LessThan, GreaterThan, LessEq, GreaterEq,
                                          Eq, NotEq, Eql, NotEql))) and
                 (rorder is not None and order > rorder)):
@@ -574,6 +574,9 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Srl(self, node):
         return self.visit_Operator(node)
 
+    def visit_Sla(self, node):
+        return self.visit_Operator(node)
+
     def visit_Sra(self, node):
         return self.visit_Operator(node)
 
-- 
2.43.0


From 88a9caee053331e18b77cb245a914c13b3bed0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 14/92] fix: generate casez and unique case statements

---
 pyverilog/ast_code_generator/codegen.py                     | 6 ++++++
 pyverilog/ast_code_generator/template/casezstatement.txt    | 5 +++++
 .../ast_code_generator/template/uniquecasestatement.txt     | 5 +++++
 3 files changed, 16 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/casezstatement.txt
 create mode 100644 pyverilog/ast_code_generator/template/uniquecasestatement.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index d1a6273..b976b6f 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -782,6 +782,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def visit_Case(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/casezstatement.txt b/pyverilog/ast_code_generator/template/casezstatement.txt
new file mode 100644
index 0000000..4a897b1
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/casezstatement.txt
@@ -0,0 +1,5 @@
+casez({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
diff --git a/pyverilog/ast_code_generator/template/uniquecasestatement.txt b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
new file mode 100644
index 0000000..88ec8f8
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
@@ -0,0 +1,5 @@
+unique case({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
-- 
2.43.0


From 95d805cb1391a5bf9251b3efd8ce4fa9255b53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 15/92] fix: generate supply declarations

---
 pyverilog/ast_code_generator/codegen.py          | 12 ++++++++++++
 pyverilog/ast_code_generator/template/supply.txt |  1 +
 2 files changed, 13 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/supply.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index b976b6f..b3f0290 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -363,6 +363,18 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_Supply(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'name': escape(node.name),
+            'width': '' if node.width is None else self.visit(node.width),
+            'signed': node.signed,
+            'value': self.visit(node.value),
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
     def visit_Ioport(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/supply.txt b/pyverilog/ast_code_generator/template/supply.txt
new file mode 100644
index 0000000..cc26190
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/supply.txt
@@ -0,0 +1 @@
+supply{{ value }} {% if signed %}signed {% endif %}{% if width != '' %}{{ width }} {% endif %}{{ name }};
\ No newline at end of file
-- 
2.43.0


From b0ff26b1b7e0e0ac520e784da88ae2fc8076c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 16/92] fix: generate the delays of continuous assignments

---
 pyverilog/ast_code_generator/codegen.py          | 2 ++
 pyverilog/ast_code_generator/template/assign.txt | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index b3f0290..06b203a 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -655,6 +655,8 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'left': self.visit(node.left),
             'right': self.visit(node.right),
+            'ldelay': '' if node.ldelay is None else self.visit(node.ldelay),
+            'rdelay': '' if node.rdelay is None else self.visit(node.rdelay),
         }
         rslt = template.render(template_dict)
         rslt = indent_multiline_assign(rslt)
diff --git a/pyverilog/ast_code_generator/template/assign.txt b/pyverilog/ast_code_generator/template/assign.txt
index 86c1391..233f2e2 100644
--- a/pyverilog/ast_code_generator/template/assign.txt
+++ b/pyverilog/ast_code_generator/template/assign.txt
@@ -1 +1 @@
-assign {{ left }} = {{ right }};
+assign {% if ldelay != '' %}{{ ldelay }} {% endif %}{{ left }} = {% if rdelay != '' %}{{ rdelay }} {% endif %}{{ right }};
-- 
2.43.0


From b11c6d613671fdce92b62f9a10bd29a7b8efeb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 17/92] fix: generate the initial values of integers

---
 pyverilog/ast_code_generator/codegen.py           | 1 +
 pyverilog/ast_code_generator/template/integer.txt | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 06b203a..4dddcaf 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -341,6 +341,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'name': escape(node.name),
             'signed': node.signed,
+            'value': '' if node.value is None else self.visit(node.value),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/integer.txt b/pyverilog/ast_code_generator/template/integer.txt
index 4f9e337..a3191c8 100644
--- a/pyverilog/ast_code_generator/template/integer.txt
+++ b/pyverilog/ast_code_generator/template/integer.txt
@@ -1 +1 @@
-integer {{ name }};
+integer {{ name }}{% if value != '' %} = {{ value }}{% endif %};
-- 
2.43.0


From b71b0ddffe225d05345270ab0bf5451827488213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 18/92] fix: keep the spaces and semicolons that generated text
 needs

---
 pyverilog/ast_code_generator/codegen.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 4dddcaf..0196f8c 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -95,8 +95,15 @@ def del_paren(s):
     return s
 
 
+_spaces = re.compile(
+    r'''"(?:[^"\\]|\\.)*"'''      # string
+    r'''|\\\S+ '''                  # escaped identifier with its terminator
+    r'''|[-+*/%&|^~!<>=] (?=[-+*/%&|^~!<>=])'''  # operators that would merge
+    r'''| ''').sub
+
+
 def del_space(s):
-    return s.replace(' ', '')
+    return _spaces(lambda m: '' if m.group() == ' ' else m.group(), s)
 
 
 class ASTCodeGenerator(ConvertVisitor):
@@ -148,7 +155,7 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).replace(';', '') for param in node.params]
+        params = [self.visit(param).rstrip(';') for param in node.params]
         template_dict = {
             'params': params,
             'len_params': len(params),
@@ -761,7 +768,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
-            'post': '' if node.post is None else del_space(self.visit(node.post).replace(';', '')),
+            'post': '' if node.post is None else del_space(self.visit(node.post).rstrip(';')),
             'statement': '' if node.statement is None else self.visit(node.statement),
         }
         rslt = template.render(template_dict)
-- 
2.43.0


From f3d276325f2d5bd32c900a860e9bc8d2ba39e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 19/92] fix: separate the names of one parameter declaration in
 module headers

---
 pyverilog/ast_code_generator/codegen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 0196f8c..2e4e404 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -155,7 +155,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).rstrip(';') for param in node.params]
+        params = []
+        for param in node.params:
+            for p in (param.list if isinstance(param, Decl) else (param,)):
+                params.append(self.visit(p).rstrip(';'))
         template_dict = {
             'params': params,
             'len_params': len(params),
-- 
2.43.0


From 538bd44bebf5d86c0b0f79318656b9706ee25c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 20/92] fix: generate the initial value of a reg as such

---
 pyverilog/ast_code_generator/codegen.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 2e4e404..e908099 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -429,8 +429,18 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Decl(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        template_dict = {
-            'items': [self.visit(item) for item in node.list],
+        items = []
+        for item in node.list:
+            prev = items[-1][0] if items else None
+            if (isinstance(item, Assign) and isinstance(prev, Reg) and
+                    isinstance(item.left.var, Identifier) and item.left.var.name == prev.name):
+                # the initial value of a variable
+                decl = items.pop()[1].rstrip(';')
+                items.append((item, '%s = %s;' % (decl, self.visit(item.right))))
+                continue
+            items.append((item, self.visit(item)))
+        template_dict = {
+            'items': [text for _, text in items],
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From e4f03ff5535a0d9a7e342d8cfe95bc60db0916af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 21/92] fix: parenthesize delay expressions that are not simple
 values

---
 pyverilog/ast_code_generator/codegen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index e908099..770abd5 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -889,8 +889,11 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_DelayStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
+        delay = self.visit(node.delay)
+        if not isinstance(node.delay, (Identifier, IntConst, FloatConst)):
+            delay = '(%s)' % del_paren(delay)
         template_dict = {
-            'delay': self.visit(node.delay),
+            'delay': delay,
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From 716b0c76d8ad9e93659dcb8b4517941e125587f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 22/92] fix: keep an else with its own if statement

---
 pyverilog/ast_code_generator/codegen.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 770abd5..c841c85 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -106,6 +106,16 @@ def del_space(s):
     return _spaces(lambda m: '' if m.group() == ' ' else m.group(), s)
 
 
+def takes_else(node):
+    # would a following else attach to an if statement at the end of node?
+    if isinstance(node, IfStatement):
+        return node.false_statement is None or takes_else(node.false_statement)
+    if isinstance(node, (ForStatement, WhileStatement, ForeverStatement, WaitStatement,
+                         Always, Initial)):
+        return takes_else(node.statement)
+    return False
+
+
 class ASTCodeGenerator(ConvertVisitor):
     def __init__(self, indentsize=2):
         self.env = Environment(loader=FileSystemLoader(DEFAULT_TEMPLATE_DIR))
@@ -765,7 +775,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_IfStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        true_statement = '' if node.true_statement is None else self.visit(node.true_statement)
+        true_statement = node.true_statement
+        if node.false_statement is not None and takes_else(true_statement):
+            true_statement = Block((true_statement,))
+        true_statement = ';' if true_statement is None else self.visit(true_statement)
         false_statement = '' if node.false_statement is None else self.visit(node.false_statement)
         template_dict = {
             'cond': del_paren(self.visit(node.cond)),
-- 
2.43.0


From 78bbd716b07eabfbfa9257b6db80503f73410a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 23/92] fix: keep the delay in front of an if statement

---
 pyverilog/vparser/parser.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 5eea72a..3a244a5 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1585,17 +1585,26 @@ class VerilogParser(object):
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p[5].end_lineno
 
+    def create_delayed_if(self, delay, statement, end_lineno):
+        # #delay if(..) .. -> begin #delay; if(..) .. end
+        wait = SingleStatement(delay, lineno=delay.lineno)
+        wait.end_lineno = delay.lineno
+        statement.end_lineno = end_lineno
+        block = Block((wait, statement), lineno=delay.lineno)
+        block.end_lineno = end_lineno
+        return block
+
     def p_if_statement_delay(self, p):
         'if_statement : delays IF LPAREN cond RPAREN true_statement ELSE else_statement'
-        p[0] = IfStatement(p[4], p[6], p[8], lineno=p.lineno(2))
-        p.set_lineno(0, p.lineno(2))
-        p[0].end_lineno = p[8].end_lineno
+        p[0] = self.create_delayed_if(
+            p[1], IfStatement(p[4], p[6], p[8], lineno=p.lineno(2)), p[8].end_lineno)
+        p.set_lineno(0, p.lineno(1))
 
     def p_if_statement_woelse_delay(self, p):
         'if_statement : delays IF LPAREN cond RPAREN true_statement'
-        p[0] = IfStatement(p[4], p[6], None, lineno=p.lineno(2))
-        p.set_lineno(0, p.lineno(2))
-        p[0].end_lineno = p[6].end_lineno
+        p[0] = self.create_delayed_if(
+            p[1], IfStatement(p[4], p[6], None, lineno=p.lineno(2)), p[6].end_lineno)
+        p.set_lineno(0, p.lineno(1))
 
     def p_cond(self, p):
         'cond : expression'
-- 
2.43.0


From a0e8281698ab1c6c5baefa065e1da8693a525aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 24/92] fix: a null statement reports its line

---
 pyverilog/vparser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 3a244a5..7ac5819 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1753,8 +1753,8 @@ class VerilogParser(object):
     # --------------------------------------------------------------------------
     def p_event_statement(self, p):
         'event_statement : senslist SEMICOLON'
-        p[0] = EventStatement(p[1], lineno=p.lineno(1))
-        p.set_lineno(0, p.lineno(1))
+        p[0] = EventStatement(p[1], lineno=p.lineno(1) or p.lineno(2))
+        p.set_lineno(0, p.lineno(1) or p.lineno(2))
         p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 90e08965b3dda6883cc3f45ea62675db55e884a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 25/92] fix: accept a comment or directive on an unterminated
 last line

---
 pyverilog/vparser/lexer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8a30e68..a3bf525 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -98,19 +98,19 @@ class VerilogLexer(object):
     t_ignore = ' \t'
 
     # Directive
-    directive = r"""\`.*?\n"""
+    directive = r"""\`[^\n]*\n?"""
 
     @TOKEN(directive)
     def t_DIRECTIVE(self, t):
         self.directives.append((self.lexer.lineno, t.value))
         t.lexer.lineno += t.value.count("\n")
-        m = re.match("^`default_nettype\s+(.+)\n", t.value)
+        m = re.match(r"^`default_nettype\s+(.+)", t.value)
         if m:
             self.default_nettype = m.group(1)
         pass
 
     # Comment
-    linecomment = r"""//.*?\n"""
+    linecomment = r"""//[^\n]*\n?"""
     commentout = r"""/\*(.|\n)*?\*/"""
 
     @TOKEN(linecomment)
-- 
2.43.0


From 71dfc3da5435836dec8c38f80cd2694b376df66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 26/92] fix: a parser starts each text at line 1 without the
 directives of the last one

---
 pyverilog/vparser/lexer.py  | 5 +++++
 pyverilog/vparser/parser.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index a3bf525..dfe2d0f 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -41,6 +41,11 @@ class VerilogLexer(object):
     def reset_lineno(self):
         self.lexer.lineno = 1
 
+    def reset(self):
+        self.reset_lineno()
+        self.directives = []
+        self.default_nettype = 'wire'
+
     def get_directives(self):
         return tuple(self.directives)
 
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 7ac5819..d782da0 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -74,6 +74,7 @@ class VerilogParser(object):
 
     # Returns AST
     def parse(self, text, debug=0):
+        self.lexer.reset()
         return self.parser.parse(text, lexer=self.lexer, debug=debug)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 31a80ba2badcfaed75e1f732e5b2bbd452890692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 27/92] fix: separate the items of a generate statement

---
 pyverilog/ast_code_generator/template/generatestatement.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/template/generatestatement.txt b/pyverilog/ast_code_generator/template/generatestatement.txt
index f7447a0..527d6dc 100644
--- a/pyverilog/ast_code_generator/template/generatestatement.txt
+++ b/pyverilog/ast_code_generator/template/generatestatement.txt
@@ -1,4 +1,5 @@
 
-generate {% for item in items %}{{ item }}{% endfor %}
+generate {% for item in items %}{{ item }}{% if not loop.last %}
+{% endif %}{% endfor %}
 endgenerate
 
-- 
2.43.0


From 907bcb5826e2903d98f6c1c17dc7c1797d93f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 28/92] fix: keep all names of a declaration in the branch that
 declares them

---
 pyverilog/ast_code_generator/codegen.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index c841c85..93078e8 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -116,6 +116,13 @@ def takes_else(node):
     return False
 
 
+def as_single(node):
+    # a declaration of several names is written as several declarations
+    if isinstance(node, Decl) and len(node.list) > 1:
+        return Block((node,))
+    return node
+
+
 class ASTCodeGenerator(ConvertVisitor):
     def __init__(self, indentsize=2):
         self.env = Environment(loader=FileSystemLoader(DEFAULT_TEMPLATE_DIR))
@@ -778,8 +785,8 @@ class ASTCodeGenerator(ConvertVisitor):
         true_statement = node.true_statement
         if node.false_statement is not None and takes_else(true_statement):
             true_statement = Block((true_statement,))
-        true_statement = ';' if true_statement is None else self.visit(true_statement)
-        false_statement = '' if node.false_statement is None else self.visit(node.false_statement)
+        true_statement = ';' if true_statement is None else self.visit(as_single(true_statement))
+        false_statement = '' if node.false_statement is None else self.visit(as_single(node.false_statement))
         template_dict = {
             'cond': del_paren(self.visit(node.cond)),
             'true_statement': true_statement,
@@ -795,7 +802,7 @@ class ASTCodeGenerator(ConvertVisitor):
             'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(self.visit(node.post).rstrip(';')),
-            'statement': '' if node.statement is None else self.visit(node.statement),
+            'statement': '' if node.statement is None else self.visit(as_single(node.statement)),
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From b9b525d3966244f38c2e4930f4ec03ccc1113c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 29/92] fix: keep the range of string-valued parameters

---
 pyverilog/ast_code_generator/codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 93078e8..63fe74e 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -423,7 +423,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
@@ -436,7 +436,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
-- 
2.43.0


From fa042c4cb2b1f96f806b3cba508ce2437eea5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 30/92] fix: keep the separators of loops without
 initialization or body

---
 pyverilog/ast_code_generator/codegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 63fe74e..e1a64a2 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -799,10 +799,10 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
-            'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
+            'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(self.visit(node.post).rstrip(';')),
-            'statement': '' if node.statement is None else self.visit(as_single(node.statement)),
+            'statement': ';' if node.statement is None else self.visit(as_single(node.statement)),
         }
         rslt = template.render(template_dict)
         return rslt
@@ -812,7 +812,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template = self.get_template(filename)
         template_dict = {
             'cond': '' if node.cond is None else del_paren(self.visit(node.cond)),
-            'statement': '' if node.statement is None else self.visit(node.statement),
+            'statement': ';' if node.statement is None else self.visit(node.statement),
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From 7d78b0ea64c26150c8ba7d8ed7d8eac99e0fc500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 31/92] fix: analyse conditionals whose condition is a
 conditional

---
 pyverilog/dataflow/bindvisitor.py   | 2 +-
 pyverilog/dataflow/signalvisitor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index cb73857..2810724 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1028,7 +1028,7 @@ class BindVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e2d5251..98e0416 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -500,7 +500,7 @@ class SignalVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
-- 
2.43.0


From 6208855ef512b44599321b9e6c20155b56c7e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 32/92] fix: cut the values of concatenated targets at the
 right bits

---
 pyverilog/dataflow/bindvisitor.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 2810724..064292c 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1313,6 +1313,9 @@ class BindVisitor(NodeVisitor):
             if msb is None and lsb is None:
                 msb, lsb = self.getTermWidth(name)
             diff = reorder.reorder(DFOperator((msb, lsb), 'Minus'))
+            diff_value = self.optimize(diff)
+            if isinstance(diff_value, DFEvalValue) and diff_value.value < 0:
+                diff = reorder.reorder(DFOperator((lsb, msb), 'Minus'))
             part_lsb = part_offset
             part_msb = reorder.reorder(DFOperator((part_offset, diff), 'Plus'))
             part_offset = reorder.reorder(
@@ -1419,7 +1422,7 @@ class BindVisitor(NodeVisitor):
                              part_msb, part_lsb, alwaysinfo):
         tree = raw_tree
         if len(dst) > 1:
-            tree = reorder.reorder(DFPartselect(raw_tree, part_msb, part_lsb))
+            tree = self.selectPart(raw_tree, part_msb, part_lsb)
         bind = Bind(tree, name, msb, lsb, ptr, alwaysinfo)
         self.frames.addNonblockingAssign(name, bind)
 
@@ -1444,8 +1447,7 @@ class BindVisitor(NodeVisitor):
         for name, msb, lsb, ptr, part_msb, part_lsb in renamed_dst:
             tree = raw_tree
             if len(renamed_dst) > 1:
-                tree = reorder.reorder(
-                    DFPartselect(tree, part_msb, part_lsb))
+                tree = self.selectPart(tree, part_msb, part_lsb)
             bind = Bind(tree, name, msb, lsb, ptr)
             self.dataflow.addBind(name, bind)
 
@@ -1471,6 +1473,9 @@ class BindVisitor(NodeVisitor):
                  raw_tree, condlist, flowlist,
                  num_dst=1, alwaysinfo=None, bindtype=None):
 
+        if num_dst > 1:
+            raw_tree = self.selectPart(raw_tree, part_msb, part_lsb)
+
         current_bindlist = self.getBindlist(name)
         current_tree = None
         current_msb = None
@@ -1509,12 +1514,23 @@ class BindVisitor(NodeVisitor):
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
 
-        if num_dst > 1:
-            tree = reorder.reorder(
-                DFPartselect(tree, part_msb, part_lsb))
-
         return Bind(tree, name, msb, lsb, ptr, alwaysinfo, bindtype)
 
+    def selectPart(self, tree, part_msb, part_lsb):
+        """ bits part_msb:part_lsb of the value of tree, counted from its rightmost bit """
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode,
+                            self.selectPart(tree.truenode, part_msb, part_lsb),
+                            self.selectPart(tree.falsenode, part_msb, part_lsb))
+        if isinstance(tree, DFTerminal):
+            term_msb, term_lsb = [self.optimize(t) for t in self.getTermWidth(tree.name)]
+            if isinstance(term_msb, DFEvalValue) and isinstance(term_lsb, DFEvalValue):
+                op = 'Minus' if term_msb.value < term_lsb.value else 'Plus'
+                if term_lsb.value != 0:
+                    part_msb = reorder.reorder(DFOperator((term_lsb, part_msb), op))
+                    part_lsb = reorder.reorder(DFOperator((term_lsb, part_lsb), op))
+        return DFPartselect(tree, part_msb, part_lsb)
+
     def diffBranchTree(self, tree, condlist, flowlist, matchflowlist=()):
         if len(condlist) == 0:
             return (tree, condlist, flowlist, matchflowlist)
-- 
2.43.0


From 9e608978f59bab0ce08f6b02f55ba9106904cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 33/92] fix: evaluate constant operators to the value and width
 Verilog gives them

---
 pyverilog/dataflow/optimizer.py | 91 ++++++++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 19 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b348416..0966b8d 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -19,7 +19,14 @@ from pyverilog.dataflow.dataflow import *
 
 class VerilogOptimizer(object):
     default_width = 32
-    compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+
+    equality_ops = ('Eq', 'NotEq', 'Eql', 'NotEql')
+    logical_ops = ('Land', 'Lor', 'Ulnot')
+    reduction_ops = ('Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
+    shift_ops = ('Sll', 'Sla', 'Srl', 'Sra')
+    # the low bits of the result depend on the low bits of the operands only
+    modular_ops = ('Uplus', 'Uminus', 'Unot', 'Plus', 'Minus', 'Times', 'And', 'Or', 'Xor', 'Xnor')
 
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
@@ -170,18 +177,51 @@ class VerilogOptimizer(object):
         return tuple(ret), all_const
 
     def evalOperator(self, operator, nextnodes):
-        valuelist = []
-        width = 0
         for n in nextnodes:
             if not isinstance(n, DFEvalValue):
                 return None
-            valuelist.append(n.value)
-            if n.width > width:
-                width = n.width
+        widthlist = [self.getWidth(n) for n in nextnodes]
+        width = max(widthlist)
+        if operator in self.shift_ops or operator == 'Power':
+            # the amount does not affect the width of the result
+            width = widthlist[0]
+        valuelist = [n.value for n in nextnodes]
+        if operator in self.equality_ops:
+            valuelist = [self._wrap(v, width) for v in valuelist]
+        elif operator in self.logical_ops:
+            valuelist = [self._wrap(v, w) for v, w in zip(valuelist, widthlist)]
+        elif operator in self.reduction_ops:
+            pass
+        elif operator not in self.modular_ops:
+            # the result depends on the bits beyond the width
+            if operator in self.shift_ops or operator == 'Power':
+                valuelist[1] = self._sized(valuelist[1], widthlist[1])
+            else:
+                valuelist[1] = self._sized(valuelist[1], width)
+            if operator not in ('Sll', 'Sla', 'Power'):
+                valuelist[0] = self._sized(valuelist[0], width)
         rslt = self._evalOperator(operator, tuple(valuelist), width)
+        if rslt is None:
+            return None
+        if (operator in self.compare_ops or operator in self.logical_ops or
+                operator in self.reduction_ops):
+            width = 1
         return DFEvalValue(rslt, width)
 
+    def _wrap(self, value, width):
+        if isinstance(value, int):
+            return value % (2 ** width)
+        return value
+
+    def _sized(self, value, width):
+        # values of the default width can be signed
+        if width < self.default_width or (isinstance(value, int) and value >= 0):
+            return self._wrap(value, width)
+        return value
+
     def _evalOperator(self, operator, valuelist, width=default_width):
+        if operator == 'Uplus':
+            return valuelist[0]
         if operator == 'Uminus':
             return -1 * valuelist[0]
         if operator == 'Ulnot':
@@ -227,25 +267,35 @@ class VerilogOptimizer(object):
                     rslt = 1 if rslt == 0 else 0
             return rslt
         if operator == 'Power':
-            return valuelist[0] ** valuelist[1]
+            if valuelist[0] == 0 and valuelist[1] < 0:
+                return None
+            value = valuelist[0] ** valuelist[1]
+            if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
+                return int(value)
+            return value
         if operator == 'Times':
             return valuelist[0] * valuelist[1]
         if operator == 'Divide':
-            value = valuelist[0] / valuelist[1]
+            if valuelist[1] == 0:
+                return None
             if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
-                return int(value)
-            return value
+                return self._divide(valuelist[0], valuelist[1])
+            return valuelist[0] / valuelist[1]
         if operator == 'Mod':
+            if valuelist[1] == 0:
+                return None
+            if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
+                return valuelist[0] - valuelist[1] * self._divide(valuelist[0], valuelist[1])
             return valuelist[0] % valuelist[1]
         if operator == 'Plus':
             return valuelist[0] + valuelist[1]
         if operator == 'Minus':
             return valuelist[0] - valuelist[1]
-        if operator == 'Sll':
+        if operator in self.shift_ops and valuelist[1] < 0:
+            return None
+        if operator == 'Sll' or operator == 'Sla':
             return valuelist[0] << valuelist[1]
-        if operator == 'Srl':
-            return valuelist[0] >> valuelist[1]
-        if operator == 'Sra':
+        if operator == 'Srl' or operator == 'Sra':
             return valuelist[0] >> valuelist[1]
 
         if operator == 'LessThan':
@@ -269,7 +319,7 @@ class VerilogOptimizer(object):
         if operator == 'Xor':
             return valuelist[0] ^ valuelist[1]
         if operator == 'Xnor':
-            return ~(valuelist[0] ^ valuelist[1])
+            return self._wrap(~(valuelist[0] ^ valuelist[1]), width)
         if operator == 'Or':
             return valuelist[0] | valuelist[1]
         if operator == 'Land':
@@ -278,6 +328,11 @@ class VerilogOptimizer(object):
             return 1 if valuelist[0] or valuelist[1] else 0
         return None
 
+    def _divide(self, left, right):
+        # towards zero
+        value = abs(left) // abs(right)
+        return value if (left < 0) == (right < 0) else -value
+
     def getWidth(self, node):
         if node is None:
             return self.default_width
@@ -352,15 +407,13 @@ class VerilogOptimizer(object):
         for node in nextnodes:
             width = self.getWidth(node)
             sum_width += width
-            concatval = (concatval << width) | node.value
+            concatval = (concatval << width) | self._wrap(node.value, width)
         return DFEvalValue(concatval, sum_width)
 
     def isCondTrue(self, cond):
         if not isinstance(cond, DFEvalValue):
             raise FormatError('Can not evaluate the branch condition.')
-        if cond.value == 0:
-            return False
-        return True
+        return self._wrap(cond.value, self.getWidth(cond)) != 0
 
     def evalPartselect(self, var, msb, lsb):
         width = msb.value - lsb.value + 1
-- 
2.43.0


From 0bba5bd13c2b3d4f639af38e9956a8f41e94162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 34/92] fix: select the declared bits of constants

---
 pyverilog/dataflow/optimizer.py | 61 ++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 0966b8d..14ece98 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -119,15 +119,11 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFTerminal):
             if not self.hasConstant(tree.name):
                 return tree
-            msb = self.getTerm(tree.name).msb
-            lsb = self.getTerm(tree.name).lsb
             const = self.getConstant(tree.name)
             constwidth = const.width
-            if msb is not None and lsb is not None:
-                msb_val = self.optimizeConstant(msb)
-                lsb_val = self.optimizeConstant(lsb)
-                if isinstance(msb_val, DFEvalValue) and isinstance(lsb_val, DFEvalValue):
-                    constwidth = msb_val.value - lsb_val.value + 1
+            msb, lsb = self.getRange(tree.name)
+            if msb is not None:
+                constwidth = abs(msb - lsb) + 1
             return DFEvalValue(const.value, constwidth)
 
         if isinstance(tree, DFConcat):
@@ -142,21 +138,18 @@ class VerilogOptimizer(object):
             var = self.optimizeConstant(tree.var)
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
-            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(msb, DFEvalValue):
-                evalcc = self.evalPartselect(var, msb, lsb)
+            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                evalcc = self.evalPartselect(var, self.getOffset(tree.var, msb), self.getOffset(tree.var, lsb))
                 return evalcc
             return DFPartselect(var, msb, lsb)
 
         if isinstance(tree, DFPointer):
-            if not isinstance(tree.var, DFTerminal):
-                return tree
-            term = self.getTerm(tree.var.name)
             var = self.optimizeConstant(tree.var)
             ptr = self.optimizeConstant(tree.ptr)
-            if term.dims is not None:
+            if isinstance(tree.var, DFTerminal) and self.getTerm(tree.var.name).dims is not None:
                 return DFPointer(var, ptr)
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
-                evalcc = self.evalPointer(var, ptr)
+                evalcc = self.evalPointer(var, self.getOffset(tree.var, ptr))
                 return evalcc
             return DFPointer(var, ptr)
 
@@ -166,6 +159,36 @@ class VerilogOptimizer(object):
         raise verror.DefinitionError('Can not optimize the tree: %s %s' %
                                      (str(type(tree)), str(tree)))
 
+    def getRange(self, name):
+        term = self.getTerm(name)
+        msb = self.optimizeConstant(term.msb)
+        lsb = self.optimizeConstant(term.lsb)
+        if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+            return msb.value, lsb.value
+        return None, None
+
+    def getOffset(self, var, index):
+        # position from the least significant bit of the bit with this index
+        if not isinstance(var, DFTerminal):
+            return index
+        msb, lsb = self.getRange(var.name)
+        if msb is None:
+            return index
+        if msb < lsb:
+            return DFEvalValue(lsb - index.value)
+        return DFEvalValue(index.value - lsb)
+
+    def getIndex(self, var, offset):
+        # index of the bit at this position from the least significant bit
+        if not isinstance(var, DFTerminal):
+            return DFEvalValue(offset)
+        msb, lsb = self.getRange(var.name)
+        if msb is None:
+            return DFEvalValue(offset)
+        if msb < lsb:
+            return DFEvalValue(lsb - offset)
+        return DFEvalValue(lsb + offset)
+
     def evalNextnodes(self, nextnodes):
         ret = []
         all_const = True
@@ -417,14 +440,12 @@ class VerilogOptimizer(object):
 
     def evalPartselect(self, var, msb, lsb):
         width = msb.value - lsb.value + 1
-        partval = var.value >> lsb.value
-        if partval >= 2 ** width:
-            partval = partval % (2 ** width)
-        return DFEvalValue(partval, width)
+        if lsb.value < 0 or width <= 0:
+            return DFUndefined(abs(msb.value - lsb.value) + 1)
+        return DFEvalValue(self._wrap(var.value >> lsb.value, width), width)
 
     def evalPointer(self, var, ptr):
-        ptrval = (var >> ptr) & 0x1
-        return DFEvalValue(ptrval, 1)
+        return self.evalPartselect(var, ptr, ptr)
 
     def optimizeHierarchy(self, tree):
         if tree is None:
-- 
2.43.0


From a4fca5dde2261e63f0a7080aa67d91a38e399b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 35/92] fix: keep the bits selected when parts of
 concatenations are cut and merged

---
 pyverilog/dataflow/optimizer.py | 177 ++++++++++++++++----------------
 1 file changed, 89 insertions(+), 88 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 14ece98..330ce9b 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -88,7 +88,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFHighImpedance):
             return tree
         if isinstance(tree, DFDelay):
-            raise FormatError('Can not evaluate and optimize a DFDelay')
+            raise verror.FormatError('Can not evaluate and optimize a DFDelay')
             # return tree
 
         if isinstance(tree, DFIntConst):
@@ -376,11 +376,7 @@ class VerilogOptimizer(object):
                 return node.width
             return self.default_width
         if isinstance(node, DFTerminal):
-            term = self.getTerm(node.name)
-            msb = self.optimizeConstant(term.msb).value
-            lsb = self.optimizeConstant(term.lsb).value
-            width = abs(msb - lsb) + 1
-            return width
+            return self.getTermWidth(node.name)
 
         if isinstance(node, DFBranch):
             truewidth = self.getWidth(node.truenode)
@@ -388,15 +384,31 @@ class VerilogOptimizer(object):
             return max(truewidth, falsewidth)
 
         if isinstance(node, DFPartselect):
-            msb = self.optimizeConstant(node.msb).value
-            lsb = self.optimizeConstant(node.lsb).value
-            width = abs(msb - lsb) + 1
-            return width
-        if isinstance(node, DFOperator):
-            if node.operator in self.compare_ops:
+            msb = self.optimizeConstant(node.msb)
+            lsb = self.optimizeConstant(node.lsb)
+            if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                return abs(msb.value - lsb.value) + 1
+            if msb == lsb:
                 return 1
-            if node.operator == 'Land' or node.operator == 'Lor':
+            # [base + constant:base] or [base:base - constant]
+            for wide, base, operator in ((msb, lsb, 'Plus'), (lsb, msb, 'Minus')):
+                diff = 0
+                while isinstance(wide, DFOperator) and wide != base:
+                    if (wide.operator not in ('Plus', 'Minus') or
+                            not isinstance(wide.nextnodes[1], DFEvalValue)):
+                        break
+                    value = wide.nextnodes[1].value
+                    diff += value if wide.operator == operator else -value
+                    wide = wide.nextnodes[0]
+                if wide == base:
+                    return abs(diff) + 1
+            raise verror.DefinitionError('The width of a part select is not constant: %s' % str(node))
+        if isinstance(node, DFOperator):
+            if (node.operator in self.compare_ops or node.operator in self.logical_ops or
+                    node.operator in self.reduction_ops):
                 return 1
+            if node.operator in self.shift_ops or node.operator == 'Power':
+                return self.getWidth(node.nextnodes[0])
             maxwidth = 0
             for n in node.nextnodes:
                 width = self.getWidth(n)
@@ -414,15 +426,33 @@ class VerilogOptimizer(object):
                 return 1
             term = self.getTerm(node.var.name)
             if term.dims is not None:
-                msb = self.optimizeConstant(term.msb).value
-                lsb = self.optimizeConstant(term.lsb).value
-                width = abs(msb - lsb) + 1
-                return width
+                return self.getTermWidth(node.var.name)
             return 1
-        if isinstance(tree, DFSyscall):
+        if isinstance(node, DFSyscall):
             return self.default_width
 
-        raise FormatError('Illegal Pointer in getWidth()')
+        raise verror.FormatError('Illegal Pointer in getWidth()')
+
+    def getTermWidth(self, name):
+        msb, lsb = self.getRange(name)
+        if msb is None:
+            raise verror.DefinitionError('The width of %s is not constant' % str(name))
+        return abs(msb - lsb) + 1
+
+    def hasWidth(self, node):
+        try:
+            self.getWidth(node)
+        except verror.DefinitionError:
+            return False
+        return True
+
+    def isBoolean(self, node):
+        return self.hasWidth(node) and self.getWidth(node) == 1
+
+    def toBoolean(self, node):
+        if self.isBoolean(node):
+            return node
+        return DFOperator((DFOperator((node,), 'Ulnot'),), 'Ulnot')
 
     def evalConcat(self, nextnodes):
         concatval = 0
@@ -435,7 +465,7 @@ class VerilogOptimizer(object):
 
     def isCondTrue(self, cond):
         if not isinstance(cond, DFEvalValue):
-            raise FormatError('Can not evaluate the branch condition.')
+            raise verror.FormatError('Can not evaluate the branch condition.')
         return self._wrap(cond.value, self.getWidth(cond)) != 0
 
     def evalPartselect(self, var, msb, lsb):
@@ -489,15 +519,17 @@ class VerilogOptimizer(object):
             msb = self.optimizeHierarchy(tree.msb)
             lsb = self.optimizeHierarchy(tree.lsb)
             var = self.optimizeHierarchy(tree.var)
-            if isinstance(var, DFConcat) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
-                return self.takePart(var.nextnodes, msb, lsb)
-            if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue) and lsb.value == 0 and self.getWidth(var) == (msb.value + 1):
-                return var
+            if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                if isinstance(var, DFConcat) and self.hasWidth(var):
+                    return self.takePart(var.nextnodes, msb, lsb)
+                if (self.hasWidth(var) and self.getOffset(var, lsb).value == 0 and
+                        self.getOffset(var, msb).value == self.getWidth(var) - 1):
+                    return var
             return DFPartselect(var, msb, lsb)
         if isinstance(tree, DFPointer):
             ptr = self.optimizeHierarchy(tree.ptr)
             var = self.optimizeHierarchy(tree.var)
-            if isinstance(var, DFConcat) and isinstance(ptr, DFEvalValue):
+            if isinstance(var, DFConcat) and isinstance(ptr, DFEvalValue) and self.hasWidth(var):
                 return self.takePoint(var.nextnodes, ptr)
             return DFPointer(var, ptr)
         if isinstance(tree, DFConcat):
@@ -511,79 +543,35 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFSyscall):
             return DFSyscall(tree.syscall, tuple([self.optimizeHierarchy(n) for n in tree.nextnodes]))
 
-        raise FormatError('Can not merge due to unrecognized type of tree')
+        raise verror.FormatError('Can not merge due to unrecognized type of tree')
 
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
 
     def takePart(self, nextnodes, msb, lsb):
-        widlist = []
-        for n in reversed(nextnodes):  # from LSB
-            widlist.append(self.getWidth(n))
         lsbcut = min(msb.value, lsb.value)
         msbcut = max(msb.value, lsb.value)
-        cutwidth = msbcut - lsbcut + 1
+        if lsbcut < 0:
+            return DFUndefined(msbcut - lsbcut + 1)
 
-        widsum = 0
-        widpos = 1
-        widoffset = 0
         usednodes = []
-        lsb = -1
-        msb = -1
-        lsboffset = -1
-        msboffset = -1
-        use = False
-        for w in widlist:  # from LSB
-            if lsbcut >= widoffset and lsbcut < widoffset + w:
-                lsb = widoffset
-                lsboffset = lsbcut - lsb
-                use = True
-            if use:
-                widsum += w
-                usednodes.append(self.optimizeConstant(nextnodes[-widpos]))
-            if msbcut >= widoffset and msbcut < widoffset + w:
-                msb = widoffset + w - 1
-                msboffset = msb - msbcut
-                break
-            widpos += 1
-            widoffset += w
+        offset = 0
+        for node in reversed(nextnodes):  # from LSB
+            width = self.getWidth(node)
+            msbpos = min(msbcut - offset, width - 1)
+            lsbpos = max(lsbcut - offset, 0)
+            if lsbpos == 0 and msbpos == width - 1:
+                usednodes.append(node)
+            elif lsbpos <= msbpos:
+                usednodes.append(DFPartselect(node, self.getIndex(node, msbpos), self.getIndex(node, lsbpos)))
+            offset += width
+        if msbcut >= offset:
+            usednodes.append(DFUndefined(msbcut - max(offset, lsbcut) + 1))
 
         usednodes.reverse()
-
-        if len(usednodes) == 0:
-            return DFUndefined(cutwidth)
-        if msboffset < 0:
-            if lsboffset == 0:
-                return DFConcat((DFUndefined(cutwidth - widsum),) + tuple(usednodes))
-            if len(usednodes) == 1:
-                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-            return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-        if lsboffset == 0 and msboffset == 0:
-            if len(usednodes) == 1:
-                return usednodes[0]
-            return DFConcat(tuple(usednodes))
-
         if len(usednodes) == 1:
-            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
-
-        ret_usednodes = []
-        usednodes_cnt = 0
-        for node in reversed(usednodes):  # from LSB
-            if usednodes_cnt == 0 and lsboffset > 0:
-                lsbval = lsboffset
-                msbval = widlist[usednodes_cnt] - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            elif usednodes_cnt == len(usednodes) - 1 and msboffset > 0:
-                lsbval = 0
-                msbval = widlist[usednodes_cnt] - msboffset - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            else:
-                ret_usednodes.append(self.optimizeConstant(node))
-            usednodes_cnt += 1
-        ret_usednodes.reverse()
-        return DFPartselect(DFConcat(tuple(ret_usednodes)), DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
+            return self.optimizeConstant(usednodes[0])
+        return self.optimizeConstant(DFConcat(tuple(usednodes)))
 
     def _isPowerOf2(self, value):
         if value <= 0:
@@ -671,10 +659,10 @@ class VerilogOptimizer(object):
                 pass
             elif last_node.var.name != n.var.name:
                 pass
-            elif last_node.lsb.value == n.msb.value + 1:
+            elif self.isAdjacent(last_node, n):
                 ret_nodes.pop()
                 new_node = DFPartselect(last_node.var, last_node.msb, n.lsb)
-                if self.getWidth(last_node.var) == (last_node.msb.value - n.lsb.value + 1):
+                if self.getWidth(last_node.var) == self.getWidth(new_node):
                     new_node = last_node.var
                 ret_nodes.append(new_node)
                 last_node = new_node
@@ -685,6 +673,19 @@ class VerilogOptimizer(object):
             return ret_nodes[0]
         return DFConcat(tuple(ret_nodes))
 
+    def isAdjacent(self, left, right):
+        # part selects of the same signal
+        if not self.hasWidth(left.var):
+            return False
+        offsets = []
+        for index in (left.msb, left.lsb, right.msb, right.lsb):
+            if not isinstance(index, DFEvalValue):
+                return False
+            offsets.append(self.getOffset(left.var, index).value)
+        if offsets[0] < offsets[1] or offsets[2] < offsets[3]:
+            return False
+        return offsets[1] == offsets[2] + 1
+
     def mergeConcat_branch(self, concatnode):
         nodelist = []
         last_node = None
-- 
2.43.0


From e71e339b8349bb311b76179c55cb6c0dfa7e263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 36/92] fix: keep the truth value of merged logical operators

---
 pyverilog/dataflow/optimizer.py | 42 +++++++++++++--------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 330ce9b..23ec90a 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -740,10 +740,8 @@ class VerilogOptimizer(object):
             return node.nextnodes[0]
         if node.operator == 'Or':
             return node.nextnodes[0]
-        if node.operator == 'Land':
-            return node.nextnodes[0]
-        if node.operator == 'Lor':
-            return node.nextnodes[0]
+        if node.operator == 'Land' or node.operator == 'Lor':
+            return self.toBoolean(node.nextnodes[0])
         if node.operator == 'LessThan':
             return DFEvalValue(0, 1)  # value, width
         if node.operator == 'GreaterThan':
@@ -820,14 +818,10 @@ class VerilogOptimizer(object):
                     return node
             return node
         if node.operator == 'Land':
-            if isinstance(left, DFEvalValue) and left.value == 0:
-                return DFEvalValue(0, 1)
-            if isinstance(right, DFEvalValue) and right.value == 0:
-                return DFEvalValue(0, 1)
-            if isinstance(left, DFEvalValue) and left.value > 0:
-                return right
-            if isinstance(right, DFEvalValue) and right.value > 0:
-                return left
+            if isinstance(left, DFEvalValue):
+                return self.toBoolean(right) if self.isCondTrue(left) else DFEvalValue(0, 1)
+            if isinstance(right, DFEvalValue):
+                return self.toBoolean(left) if self.isCondTrue(right) else DFEvalValue(0, 1)
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
                 if self.getWidth(node) == 1:
@@ -908,14 +902,10 @@ class VerilogOptimizer(object):
                 return left
             return node
         if node.operator == 'Lor':
-            if isinstance(left, DFEvalValue) and left.value == 0:
-                return right
-            if isinstance(right, DFEvalValue) and right.value == 0:
-                return left
-            if isinstance(left, DFEvalValue) and left.value > 0:
-                return DFEvalValue(1, 1)
-            if isinstance(right, DFEvalValue) and right.value > 0:
-                return DFEvalValue(1, 1)
+            if isinstance(left, DFEvalValue):
+                return DFEvalValue(1, 1) if self.isCondTrue(left) else self.toBoolean(right)
+            if isinstance(right, DFEvalValue):
+                return DFEvalValue(1, 1) if self.isCondTrue(right) else self.toBoolean(left)
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
                 return DFEvalValue(1, 1)
@@ -933,25 +923,25 @@ class VerilogOptimizer(object):
                     and isinstance(left.nextnodes[0], DFOperator) and left.nextnodes[0].operator == 'Ulnot'\
                     and left.nextnodes[0].nextnodes[0] == right.nextnodes[0]\
                     and left.nextnodes[1] == right.nextnodes[1]:
-                return left.nextnodes[1]
+                return self.toBoolean(left.nextnodes[1])
             if isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left.nextnodes[1], DFOperator) and left.nextnodes[1].operator == 'Ulnot'\
                     and left.nextnodes[1].nextnodes[0] == right.nextnodes[0]\
                     and left.nextnodes[0] == right.nextnodes[1]:
-                return left.nextnodes[0]
+                return self.toBoolean(left.nextnodes[0])
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[0], DFOperator) and right.nextnodes[0].operator == 'Ulnot'\
                     and right.nextnodes[0].nextnodes[0] == left.nextnodes[0]\
                     and right.nextnodes[1] == left.nextnodes[1]:
-                return right.nextnodes[1]
+                return self.toBoolean(right.nextnodes[1])
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[1], DFOperator) and right.nextnodes[1].operator == 'Ulnot'\
                     and right.nextnodes[1].nextnodes[0] == left.nextnodes[0]\
                     and right.nextnodes[0] == left.nextnodes[1]:
-                return right.nextnodes[0]
+                return self.toBoolean(right.nextnodes[0])
             return node
         return node
 
@@ -967,7 +957,7 @@ class VerilogOptimizer(object):
                     retnode = r
                 else:
                     retnode = DFOperator((retnode, r), 'Land')
-            return retnode
+            return self.toBoolean(retnode)
         return ret
 
     def _mergeLand(self, node):
@@ -1008,7 +998,7 @@ class VerilogOptimizer(object):
                     retnode = r
                 else:
                     retnode = DFOperator((retnode, r), 'Lor')
-            return retnode
+            return self.toBoolean(retnode)
         return ret
 
     def _mergeLor(self, node):
-- 
2.43.0


From ce073c5bc80593b821187bb920a4df7bd690ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 37/92] fix: recognise powers of two exactly

---
 pyverilog/dataflow/optimizer.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 23ec90a..167f62d 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -576,10 +576,7 @@ class VerilogOptimizer(object):
     def _isPowerOf2(self, value):
         if value <= 0:
             return False
-        p = math.log(value, 2)
-        if p % 1.0 == 0:
-            return True
-        return False
+        return value & (value - 1) == 0
 
     def replaceOperator(self, node):
         if not isinstance(node, DFOperator):
@@ -588,17 +585,17 @@ class VerilogOptimizer(object):
             (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
              self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sll')
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[0], DFEvalValue) and
              isinstance(node.nextnodes[0].value, int) and
              self._isPowerOf2(node.nextnodes[0].value))):
-            return DFOperator((node.nextnodes[1], DFEvalValue(int(math.log(node.nextnodes[0].value, 2)))), 'Sll')
+            return DFOperator((node.nextnodes[1], DFEvalValue(node.nextnodes[0].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Divide'
             and (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
                  self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sra')
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sra')
         return node
 
     def mergeConcat(self, concatnode):
-- 
2.43.0


From 21d3800855585a54358a43c47020f8ffd4d2ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 38/92] fix: report the width of sized signed constants

---
 pyverilog/dataflow/dataflow.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index da85be2..c30cd8e 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -172,16 +172,7 @@ class DFIntConst(DFConstant):
 
     def width(self):
         targ = self.value.replace('_', '')
-        match = re.search(r'(.+)\'[Hh].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Dd].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Oo].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Bb].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[HhDdOoBb].+', targ)
         if match is not None:
             return int(match.group(1), 10)
         return 32
-- 
2.43.0


From da8f0077910d047815ef91def70e45362103f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 39/92] fix: give unary plus its mark

---
 pyverilog/utils/op2mark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/utils/op2mark.py b/pyverilog/utils/op2mark.py
index e97c2da..d423d86 100644
--- a/pyverilog/utils/op2mark.py
+++ b/pyverilog/utils/op2mark.py
@@ -8,7 +8,7 @@
 # -------------------------------------------------------------------------------
 
 operator_mark = {
-    'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&',
+    'Uplus': '+', 'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&',
     'Uor': '|', 'Unor': '~|', 'Uxor': '^', 'Uxnor': '~^',
     'Power': '**', 'Times': '*', 'Divide': '/', 'Mod': '%',
     'Plus': '+', 'Minus': '-',
@@ -27,7 +27,7 @@ def op2mark(op):
 
 
 operator_order = {
-    'Uminus': 0, 'Ulnot': 0, 'Unot': 0, 'Uand': 0, 'Unand': 0,
+    'Uplus': 0, 'Uminus': 0, 'Ulnot': 0, 'Unot': 0, 'Uand': 0, 'Unand': 0,
     'Uor': 0, 'Unor': 0, 'Uxor': 0, 'Uxnor': 0,
     'Power': 1,
     'Times': 2, 'Divide': 2, 'Mod': 2,
-- 
2.43.0


From 717920f84edbbd9e2bc982908cd6619503ca808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 40/92] fix: keep the bits selected from an expression that is
 simplified to a signal

---
 pyverilog/dataflow/optimizer.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 167f62d..227140a 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -141,7 +141,7 @@ class VerilogOptimizer(object):
             if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 evalcc = self.evalPartselect(var, self.getOffset(tree.var, msb), self.getOffset(tree.var, lsb))
                 return evalcc
-            return DFPartselect(var, msb, lsb)
+            return self.makePartselect(tree.var, var, msb, lsb)
 
         if isinstance(tree, DFPointer):
             var = self.optimizeConstant(tree.var)
@@ -151,7 +151,7 @@ class VerilogOptimizer(object):
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
                 evalcc = self.evalPointer(var, self.getOffset(tree.var, ptr))
                 return evalcc
-            return DFPointer(var, ptr)
+            return self.makePointer(tree.var, var, ptr)
 
         if isinstance(tree, DFSyscall):
             return DFSyscall(tree.syscall, tuple([self.optimizeConstant(n) for n in tree.nextnodes]))
@@ -189,6 +189,21 @@ class VerilogOptimizer(object):
             return DFEvalValue(lsb - offset)
         return DFEvalValue(lsb + offset)
 
+    def makePartselect(self, old_var, var, msb, lsb):
+        if isinstance(var, DFTerminal) and not isinstance(old_var, DFTerminal):
+            # the indices are positions in an expression
+            if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                return DFPartselect(var, self.getIndex(var, msb.value), self.getIndex(var, lsb.value))
+            return DFPartselect(DFConcat((var,)), msb, lsb)
+        return DFPartselect(var, msb, lsb)
+
+    def makePointer(self, old_var, var, ptr):
+        if isinstance(var, DFTerminal) and not isinstance(old_var, DFTerminal):
+            if isinstance(ptr, DFEvalValue):
+                return DFPointer(var, self.getIndex(var, ptr.value))
+            return DFPointer(DFConcat((var,)), ptr)
+        return DFPointer(var, ptr)
+
     def evalNextnodes(self, nextnodes):
         ret = []
         all_const = True
@@ -522,16 +537,17 @@ class VerilogOptimizer(object):
             if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 if isinstance(var, DFConcat) and self.hasWidth(var):
                     return self.takePart(var.nextnodes, msb, lsb)
-                if (self.hasWidth(var) and self.getOffset(var, lsb).value == 0 and
-                        self.getOffset(var, msb).value == self.getWidth(var) - 1):
+                part = self.makePartselect(tree.var, var, msb, lsb)
+                if (self.hasWidth(var) and self.getOffset(var, part.lsb).value == 0 and
+                        self.getOffset(var, part.msb).value == self.getWidth(var) - 1):
                     return var
-            return DFPartselect(var, msb, lsb)
+            return self.makePartselect(tree.var, var, msb, lsb)
         if isinstance(tree, DFPointer):
             ptr = self.optimizeHierarchy(tree.ptr)
             var = self.optimizeHierarchy(tree.var)
             if isinstance(var, DFConcat) and isinstance(ptr, DFEvalValue) and self.hasWidth(var):
                 return self.takePoint(var.nextnodes, ptr)
-            return DFPointer(var, ptr)
+            return self.makePointer(tree.var, var, ptr)
         if isinstance(tree, DFConcat):
             nextnodes = []
             for n in tree.nextnodes:
-- 
2.43.0


From 4dbd80bd1495b8958f8853a60096ebd8af6113a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 41/92] fix: x && ~x is false for single bits only

---
 pyverilog/dataflow/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 227140a..ed60b2c 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -837,13 +837,13 @@ class VerilogOptimizer(object):
                 return self.toBoolean(left) if self.isCondTrue(right) else DFEvalValue(0, 1)
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
-                if self.getWidth(node) == 1:
+                if self.isBoolean(right):
                     return DFEvalValue(0, 1)
                 else:
                     return node
             if isinstance(right, DFOperator) and right.operator == 'Unot'\
                     and right.nextnodes[0] == left:
-                if self.getWidth(node) == 1:
+                if self.isBoolean(left):
                     return DFEvalValue(0, 1)
                 else:
                     return node
-- 
2.43.0


From 074c776f6fcb19e1f640747fd28e7fd48fa65bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 42/92] fix: compute dependent parameters of an instance from
 its own parameter values

---
 pyverilog/dataflow/bindvisitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 064292c..c84d28b 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -161,6 +161,10 @@ class BindVisitor(NodeVisitor):
 
         scope = self.frames.getCurrent()
 
+        # values that may depend on the parameters given here
+        for name in self.frames.getConsts(scope):
+            self.resetConstant(name)
+
         paramnames = self.moduleinfotable.getParamNames(node.module)
         for paramnames_i, param in enumerate(node.parameterlist):
             self.addInstanceParameterBind(param, paramnames[paramnames_i])
-- 
2.43.0


From 2c6eaa241fb460b61fb93ce6712a6021b8e32ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 43/92] fix: parts of blocking assignments to concatenations
 are selected only once

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index c84d28b..24a55d6 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1468,7 +1468,7 @@ class BindVisitor(NodeVisitor):
             renamed_term = DFTerminal(renamed_dst[term_i][0])
             renamed_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
                                          renamed_term, condlist, flowlist,
-                                         num_dst=len(dst), alwaysinfo=alwaysinfo)
+                                         alwaysinfo=alwaysinfo)
             self.dataflow.addBind(name, renamed_bind)
             self.frames.setBlockingAssign(name, renamed_bind, scope)
             term_i += 1
-- 
2.43.0


From 7e0779c91b3bdc1f61de0358b4253497a847f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 44/92] fix: report selections that cannot be reordered

---
 pyverilog/dataflow/reorder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index f948af2..7a891d3 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -12,6 +12,7 @@ import sys
 import os
 import copy
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -60,7 +61,7 @@ def reorder(tree):
         resolved_lsb = reorder(tree.lsb)
         resolved_var = reorder(tree.var)
         if isinstance(resolved_msb, DFBranch) or isinstance(resolved_lsb, DFBranch):
-            raise FormatError('MSB and LSB should not be DFBranch')
+            raise verror.FormatError('MSB and LSB should not be DFBranch')
         if isinstance(resolved_var, DFBranch):
             return insertPartselect(resolved_var, resolved_msb, resolved_lsb)
         return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
@@ -69,7 +70,7 @@ def reorder(tree):
         resolved_ptr = reorder(tree.ptr)
         resolved_var = reorder(tree.var)
         if isinstance(resolved_ptr, DFBranch):
-            # raise FormatError('PTR should not be DFBranch')n
+            # raise verror.FormatError('PTR should not be DFBranch')n
             return DFBranch(resolved_ptr.condnode,
                             reorder(DFPointer(resolved_var, resolved_ptr.truenode)),
                             reorder(DFPointer(resolved_var, resolved_ptr.falsenode)))
@@ -80,7 +81,7 @@ def reorder(tree):
     if isinstance(tree, DFDelay):
         return DFDelay(reorder(tree.nextnode))
 
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
 
 ############################################################################
 
-- 
2.43.0


From add775f5df3d1cf5f3b59a4cbc48a7dfc5eba5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 45/92] fix: accept concatenations connected to output ports

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 24a55d6..c20c090 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1332,7 +1332,7 @@ class BindVisitor(NodeVisitor):
     def getDsts(self, left, scope):
         if isinstance(left, Lvalue):
             return self.getDsts(left.var, scope)
-        if isinstance(left, LConcat):
+        if isinstance(left, (LConcat, Concat)):
             dst = []
             for n in left.list:
                 dst.extend(list(self.getDsts(n, scope)))
-- 
2.43.0


From 446ee13591e013d1ff4c75ce0a903c13a8ec1949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 46/92] fix: cut instance outputs by their own ranges

---
 pyverilog/dataflow/bindvisitor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index c20c090..82d4c39 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -179,6 +179,14 @@ class BindVisitor(NodeVisitor):
             term = self.makeConstantTerm(name, definition, current)
             self.setConstantTerm(name, term)
 
+        self.copyFrameInfo(scope)
+
+        # the ranges of the ports decide how values are cut for them
+        for definitions in self.frames.getSignals(scope).values():
+            for definition in definitions:
+                if isinstance(definition, (Input, Output, Inout)):
+                    self.addTerm(definition)
+
         ioports = self.moduleinfotable.getIOPorts(node.module)
         for ioport_i, port in enumerate(node.portlist):
             if port.portname is not None and not (port.portname in ioports):
@@ -186,9 +194,6 @@ class BindVisitor(NodeVisitor):
                                          (port.argname.name, nodename))
             self.addInstancePortBind(port, ioports[ioport_i], arrayindex)
 
-        new_current = self.frames.getCurrent()
-        self.copyFrameInfo(new_current)
-
         self.visit(self.moduleinfotable.getDefinition(node.module))
         self.frames.setCurrent(current)
 
-- 
2.43.0


From eed0df67c0ef9cc5453a9902879b8b8b8ded357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 47/92] fix: analyse casez, casex and unique case statements

---
 pyverilog/dataflow/bindvisitor.py   | 20 +++++++++++++-------
 pyverilog/dataflow/signalvisitor.py | 20 +++++++++++++-------
 pyverilog/dataflow/visit.py         | 16 ++++++++++++++++
 3 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 82d4c39..0ad3332 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -369,22 +369,28 @@ class BindVisitor(NodeVisitor):
         self.frames.setCurrent(current)
         return label
 
-    def visit_CaseStatement(self, node):
+    def visit_CaseStatement(self, node, wildcards=''):
         if self.frames.isFunctiondef() and not self.frames.isFunctioncall():
             return
         if self.frames.isTaskdef() and not self.frames.isTaskcall():
             return
         start_frame = self.frames.getCurrent()
         caseframes = []
-        self._case(node.comp, node.caselist, caseframes)
+        self._case(node.comp, node.caselist, caseframes, wildcards)
         self.frames.setCurrent(start_frame)
         for f in caseframes:
             self.copyBlockingAssigns(f, start_frame)
 
     def visit_CasexStatement(self, node):
+        return self.visit_CaseStatement(node, 'xXzZ?')
+
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node, 'zZ?')
+
+    def visit_UniqueCaseStatement(self, node):
         return self.visit_CaseStatement(node)
 
-    def _case(self, comp, caselist, myframes):
+    def _case(self, comp, caselist, myframes, wildcards=''):
         if len(caselist) == 0:
             return
 
@@ -392,11 +398,11 @@ class BindVisitor(NodeVisitor):
         cond = IntConst('1')
         if case.cond is not None:
             if len(case.cond) > 1:
-                cond = Eq(comp, case.cond[0])
+                cond = makeCaseCondition(comp, case.cond[0], wildcards)
                 for c in case.cond[1:]:
-                    cond = Lor(cond, Eq(comp, c))
+                    cond = Lor(cond, makeCaseCondition(comp, c, wildcards))
             else:
-                cond = Eq(comp, case.cond[0])
+                cond = makeCaseCondition(comp, case.cond[0], wildcards)
         # else: raise Exception
         label = self.labels.get(self.frames.getLabelKey('if'))
         current = self.stackNextFrame(label, 'if',
@@ -433,7 +439,7 @@ class BindVisitor(NodeVisitor):
 
         myframes.append(current + ScopeLabel(label, 'if'))
 
-        self._case(comp, caselist[1:], myframes)
+        self._case(comp, caselist[1:], myframes, wildcards)
 
     def visit_ForStatement(self, node):
         if self.frames.isFunctiondef() and not self.frames.isFunctioncall():
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 98e0416..89085fe 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -223,26 +223,32 @@ class SignalVisitor(NodeVisitor):
         self.frames.setCurrent(current)
         return label
 
-    def visit_CaseStatement(self, node):
+    def visit_CaseStatement(self, node, wildcards=''):
         start_frame = self.frames.getCurrent()
-        self._case(node.comp, node.caselist)
+        self._case(node.comp, node.caselist, wildcards)
         self.frames.setCurrent(start_frame)
 
     def visit_CasexStatement(self, node):
+        return self.visit_CaseStatement(node, 'xXzZ?')
+
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node, 'zZ?')
+
+    def visit_UniqueCaseStatement(self, node):
         return self.visit_CaseStatement(node)
 
-    def _case(self, comp, caselist):
+    def _case(self, comp, caselist, wildcards=''):
         if len(caselist) == 0:
             return
         case = caselist[0]
         cond = IntConst('1')
         if case.cond is not None:
             if len(case.cond) > 1:
-                cond = Eq(comp, case.cond[0])
+                cond = makeCaseCondition(comp, case.cond[0], wildcards)
                 for c in case.cond[1:]:
-                    cond = Lor(cond, Eq(comp, c))
+                    cond = Lor(cond, makeCaseCondition(comp, c, wildcards))
             else:
-                cond = Eq(comp, case.cond[0])
+                cond = makeCaseCondition(comp, case.cond[0], wildcards)
         label = self.labels.get(self.frames.getLabelKey('if'))
         current = self.frames.addFrame(ScopeLabel(label, 'if'),
                                        frametype='ifthen',
@@ -266,7 +272,7 @@ class SignalVisitor(NodeVisitor):
                                        generate=self.frames.isGenerate(),
                                        always=self.frames.isAlways(),
                                        initial=self.frames.isInitial())
-        self._case(comp, caselist[1:])
+        self._case(comp, caselist[1:], wildcards)
 
     def visit_ForStatement(self, node):
         # pre-statement
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index da67da3..747e722 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -40,6 +40,22 @@ primitives = {
 }
 
 
+def makeCaseCondition(comp, label, wildcards=''):
+    """ condition under which a case label matches: digits among wildcards match anything """
+    if isinstance(label, IntConst) and "'" in label.value:
+        head, base, digits = re.match("^(.*'[sS]?)([bBoOdDhH])(.*)$", label.value).groups()
+        digits = digits.replace('_', '')
+        if any(d in wildcards for d in digits):
+            bits = {'b': 1, 'o': 3, 'h': 4}.get(base.lower())
+            if bits is None:
+                return IntConst('1')
+            mask = ''.join(('0' if d in wildcards else '1') * bits for d in digits)
+            value = ''.join('0' * bits if d in wildcards else
+                            d if d in 'xXzZ?' else format(int(d, 16), '0%db' % bits) for d in digits)
+            return Eq(And(comp, IntConst(head + 'b' + mask)), IntConst(head + 'b' + value))
+    return Eq(comp, label)
+
+
 # Base Visitor
 class NodeVisitor(object):
     def visit(self, node):
-- 
2.43.0


From e0e01303b062b514adda421438dffcd66483bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 48/92] fix: analyse instances of modules whose parameters have
 ranges

---
 pyverilog/dataflow/signalvisitor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 89085fe..d5cc1e8 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -377,9 +377,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError("Multiple definitions for Constant")
             for definition in definitions:
                 simple_definition = copy.deepcopy(definition)
-                if simple_definition.width is not None:
-                    simple_definition.width.msb = None
-                    simple_definition.width.lsb = None
+                simple_definition.width = None
                 term = self.makeConstantTerm(name, simple_definition, current)
                 self.setConstantTerm(name, term)
 
-- 
2.43.0


From 84606d54061f953ce005c1bed331daa155994f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 49/92] fix: values of parts assigned in a procedure have the
 range of the part

---
 pyverilog/dataflow/bindvisitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 0ad3332..429b8bb 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1453,6 +1453,8 @@ class BindVisitor(NodeVisitor):
             newterm = copy.deepcopy(term)
             newterm.name = renamed_dname
             newterm.termtype = set(['Rename'])
+            if isinstance(d[1], DFEvalValue) and isinstance(d[2], DFEvalValue):
+                newterm.msb, newterm.lsb = d[1], d[2]  # holds that part only
             self.dataflow.addTerm(renamed_dname, newterm)
             newd = (renamed_dname,) + d[1:]
             renamed_dst += (newd,)
-- 
2.43.0


From 9afcd9f009bc406b369ef0a5a46b18377535d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 50/92] fix: keep the labels of casex as they are reported
 today

---
 pyverilog/dataflow/bindvisitor.py   | 2 +-
 pyverilog/dataflow/signalvisitor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 429b8bb..5321bff 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -382,7 +382,7 @@ class BindVisitor(NodeVisitor):
             self.copyBlockingAssigns(f, start_frame)
 
     def visit_CasexStatement(self, node):
-        return self.visit_CaseStatement(node, 'xXzZ?')
+        return self.visit_CaseStatement(node)
 
     def visit_CasezStatement(self, node):
         return self.visit_CaseStatement(node, 'zZ?')
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index d5cc1e8..f78ee08 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -229,7 +229,7 @@ class SignalVisitor(NodeVisitor):
         self.frames.setCurrent(start_frame)
 
     def visit_CasexStatement(self, node):
-        return self.visit_CaseStatement(node, 'xXzZ?')
+        return self.visit_CaseStatement(node)
 
     def visit_CasezStatement(self, node):
         return self.visit_CaseStatement(node, 'zZ?')
-- 
2.43.0


From e7b976869a980bd55b85d4453b91a591d00ad54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 51/92] fix: keep the earlier value where a nested condition
 does not hold

---
 pyverilog/dataflow/bindvisitor.py | 68 ++++++++++---------------------
 1 file changed, 21 insertions(+), 47 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 5321bff..7f9faba 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -13,6 +13,7 @@ from __future__ import print_function
 import sys
 import os
 import re
+import functools
 
 from pyverilog.vparser.ast import *
 import pyverilog.utils.util as util
@@ -27,6 +28,8 @@ import pyverilog.dataflow.replace as replace
 
 
 class BindVisitor(NodeVisitor):
+    MAX_COPIED_BRANCHES = 16
+
     def __init__(self, moduleinfotable, top, frames, noreorder=False):
         self.moduleinfotable = moduleinfotable
         self.top = top
@@ -342,8 +345,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.true_statement is not None:
             self.visit(node.true_statement)
         self.frames.setCurrent(current)
@@ -362,8 +363,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.false_statement is not None:
             self.visit(node.false_statement)
         self.frames.setCurrent(current)
@@ -414,8 +413,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(self.frames.getCurrent())
 
         if case.statement is not None:
@@ -435,8 +432,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(current + ScopeLabel(label, 'if'))
 
         self._case(comp, caselist[1:], myframes, wildcards)
@@ -662,24 +657,6 @@ class BindVisitor(NodeVisitor):
             self.dataflow.addTask(name, definition.getDefinition())
             self.dataflow.addTaskPorts(name, definition.getIOPorts())
 
-    def copyPreviousNonblockingAssign(self, scope):
-        assign = self.frames.getPreviousNonblockingAssign()
-        for name, bindlist in assign.items():
-            for bind in bindlist:
-                self.frames.addNonblockingAssign(name, bind)
-                msb = bind.msb
-                lsb = bind.lsb
-                ptr = bind.ptr
-                part_msb = None
-                part_lsb = None
-                condlist, flowlist = self.getCondflow(scope)
-                alwaysinfo = bind.alwaysinfo
-                raw_tree = bind.tree
-                new_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
-                                         raw_tree, condlist, flowlist,
-                                         alwaysinfo=alwaysinfo)
-                self.dataflow.addBind(name, new_bind)
-
     def copyBlockingAssigns(self, scope_copy_from, scope_copy_to):
         assign = self.frames.getBlockingAssignsScope(scope_copy_from)
         for name, bindlist in assign.items():
@@ -1523,10 +1500,7 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
-        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree)
-        if rest_flowlist and rest_tree is not None:
-            _rest_flowlist = rest_flowlist[:-1] + (not rest_flowlist[-1], )
-            add_tree = self.appendBranchTree(add_tree, _rest_flowlist, rest_tree)
+        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
@@ -1564,25 +1538,25 @@ class BindVisitor(NodeVisitor):
                 tree.falsenode, condlist[1:], flowlist[1:],
                 matchflowlist + (flowlist[0],))
 
-    def makeBranchTree(self, condlist, flowlist, node):
+    def makeBranchTree(self, condlist, flowlist, node, rest=None):
+        """ node where all the conditions are met, and rest wherever one is not """
         if len(condlist) == 0 or len(flowlist) == 0:
             return node
-        if len(condlist) == 1:
-            if flowlist[0]:
-                return DFBranch(condlist[0], node, None)
-            else:
-                return DFBranch(condlist[0], None, node)
-        else:
-            if flowlist[0]:
-                return DFBranch(
-                    condlist[0],
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node),
-                    None)
-            else:
-                return DFBranch(
-                    condlist[0],
-                    None,
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node))
+        if len(condlist) > 1 and self.countBranches(rest) > self.MAX_COPIED_BRANCHES:
+            # a copy of rest for each condition would double the tree again and again
+            conds = [cond if flow else DFOperator((cond,), 'Ulnot')
+                     for cond, flow in zip(condlist, flowlist)]
+            return DFBranch(functools.reduce(lambda x, y: DFOperator((x, y), 'Land'), conds),
+                            node, rest)
+        tree = self.makeBranchTree(condlist[1:], flowlist[1:], node, rest)
+        if flowlist[0]:
+            return DFBranch(condlist[0], tree, rest)
+        return DFBranch(condlist[0], rest, tree)
+
+    def countBranches(self, tree):
+        if not isinstance(tree, DFBranch):
+            return 0
+        return 1 + self.countBranches(tree.truenode) + self.countBranches(tree.falsenode)
 
     def appendBranchTree(self, base, pos, tree):
         if len(pos) == 0:
-- 
2.43.0


From 1c8f770a2e8945df0d9590944d3592f5bb7488ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 52/92] fix: evaluate parameters that depend on local
 parameters

---
 pyverilog/dataflow/modulevisitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/modulevisitor.py b/pyverilog/dataflow/modulevisitor.py
index 3d24200..692c700 100644
--- a/pyverilog/dataflow/modulevisitor.py
+++ b/pyverilog/dataflow/modulevisitor.py
@@ -40,10 +40,13 @@ class ModuleVisitor(NodeVisitor):
         self.moduleinfotable.addConst(node.name, node)
         self.moduleinfotable.addParamName(node.name)
 
-    def visit_Locaparam(self, node):
+    def visit_Localparam(self, node):
         self.moduleinfotable.addConst(node.name, node)
 
     # Skip Rule
+    def visit_GenerateStatement(self, node):
+        pass
+
     def visit_Function(self, node):
         pass
 
-- 
2.43.0


From 1104f3454b745af636e507b45fb9dc687ec81bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 53/92] fix: keep variables of functions out of the module's
 signals

---
 pyverilog/dataflow/signalvisitor.py | 3 +++
 pyverilog/dataflow/visit.py         | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index f78ee08..06862a6 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -275,6 +275,9 @@ class SignalVisitor(NodeVisitor):
         self._case(comp, caselist[1:], wildcards)
 
     def visit_ForStatement(self, node):
+        if self.frames.isFunctiondef() or self.frames.isTaskdef():
+            return
+
         # pre-statement
         current = self.frames.getCurrent()
         pre_right = self.getTree(node.pre.right, current)
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 747e722..1b3f429 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -690,6 +690,8 @@ class FrameTable(object):
         if self.task_def and isinstance(var, Input):
             self.dict[self.current].addTaskPort(var)
             return
+        if self.function_def or self.task_def:
+            return  # a variable of its own
         self.dict[self.current].addSignal(var)
 
     def addConst(self, var):
-- 
2.43.0


From 98feb7ee65b8ce153a121256129c60170a0d70b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 54/92] fix: connect each instance of an array to its own bits

---
 pyverilog/dataflow/bindvisitor.py   | 34 +++++++++++++++++++++--------
 pyverilog/dataflow/signalvisitor.py |  2 +-
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 7f9faba..a8c1f30 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -147,11 +147,11 @@ class BindVisitor(NodeVisitor):
         current = self.frames.getCurrent()
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
-        num_of_pins = msb + 1 - lsb
 
-        for i in range(lsb, msb + 1):
+        for i in range(min(msb, lsb), max(msb, lsb) + 1):
             nodename = node.name + '_' + str(i)
-            self._visit_Instance_body(node, nodename, arrayindex=i)
+            # the rightmost instance takes the rightmost bits
+            self._visit_Instance_body(node, nodename, arrayindex=abs(i - lsb))
 
     def _visit_Instance_body(self, node, nodename, arrayindex=None):
         if node.module in primitives:
@@ -906,25 +906,41 @@ class BindVisitor(NodeVisitor):
             if t == 'Input':
                 if port.argname is None:
                     continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
+                portarg = self.getPortArg(port, ldst[0][0], rscope, arrayindex)
                 self.addDataflow(ldst, portarg, lscope, rscope)
             elif t == 'Output':
                 if port.argname is None:
                     continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
+                portarg = self.getPortArg(port, ldst[0][0], rscope, arrayindex)
                 rdst = self.getDestinations(portarg, rscope)
                 self.addDataflow(rdst, portname, rscope, lscope)
             elif t == 'Inout':
                 if port.argname is None:
                     continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
+                portarg = self.getPortArg(port, ldst[0][0], rscope, arrayindex)
                 self.addDataflow(ldst, portarg, lscope, rscope)
                 rdst = self.getDestinations(portarg, rscope)
                 self.addDataflow(rdst, portname, rscope, lscope)
 
+    def getPortArg(self, port, name, scope, arrayindex):
+        """ the part of the argument that belongs to one instance of an array """
+        if arrayindex is None:
+            return port.argname
+        msb, lsb = [self.optimize(t).value for t in self.getTermWidth(name)]
+        return self.selectArrayPart(port.argname, arrayindex, abs(msb - lsb) + 1, scope)
+
+    def selectArrayPart(self, arg, index, width, scope):
+        if not isinstance(arg, Identifier):
+            return Pointer(arg, IntConst(str(index)))
+        name = self.getDst(arg, scope)[0]
+        msb, lsb = [self.optimize(t).value for t in self.getTermWidth(name)]
+        if abs(msb - lsb) + 1 == width:
+            return arg
+        step = 1 if msb >= lsb else -1
+        right = IntConst(str(lsb + step * index * width))
+        left = IntConst(str(lsb + step * (index * width + width - 1)))
+        return Pointer(arg, right) if width == 1 else Partselect(arg, left, right)
+
     def addDataflow(self, dst, right, lscope, rscope, alwaysinfo=None, bindtype=None):
         condlist, flowlist = self.getCondflow(lscope)
         raw_tree = self.getTree(right, rscope)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 06862a6..5bfba4e 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -122,7 +122,7 @@ class SignalVisitor(NodeVisitor):
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
 
-        for i in range(lsb, msb + 1):
+        for i in range(min(msb, lsb), max(msb, lsb) + 1):
             nodename = node.name + '_' + str(i)
             self._visit_Instance_body(node, nodename)
 
-- 
2.43.0


From 85d810648286fa0bca386be8550f9145134a3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 55/92] fix: evaluate genvars in declared ranges, and give
 supply nets one bit

---
 pyverilog/dataflow/bindvisitor.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index a8c1f30..651be2e 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -852,18 +852,18 @@ class BindVisitor(NodeVisitor):
             termtype = 'Task'
         termtypes = set([termtype])
 
-        if isinstance(node, (Parameter, Localparam)):
-            msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
+        if isinstance(node, (Parameter, Localparam)) and not isinstance(node, Supply):
+            msb = DFIntConst('31') if node.width is None else self.makeWidthTree(node.width.msb, scope)
         else:
-            msb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.msb, scope)
-        lsb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.lsb, scope)
+            msb = DFIntConst('0') if node.width is None else self.makeWidthTree(node.width.msb, scope)
+        lsb = DFIntConst('0') if node.width is None else self.makeWidthTree(node.width.lsb, scope)
 
         dims = None
         if node.dimensions is not None:
             dims = []
             for length in node.dimensions.lengths:
-                l = self.makeDFTree(length.msb, scope)
-                r = self.makeDFTree(length.lsb, scope)
+                l = self.makeWidthTree(length.msb, scope)
+                r = self.makeWidthTree(length.lsb, scope)
                 dims.append((l, r))
             dims = tuple(dims)
 
@@ -871,6 +871,12 @@ class BindVisitor(NodeVisitor):
         self.dataflow.addTerm(name, term)
         self.setConstantTerm(name, term)
 
+    def makeWidthTree(self, node, scope):
+        tree = self.makeDFTree(node, scope)
+        if self.frames.isGenerate():
+            tree = self.resolveBlockingAssign(tree, scope)  # values of genvars
+        return tree
+
     def addBind(self, left, right, alwaysinfo=None, bindtype=None):
         if self.frames.isFunctiondef() and not self.frames.isFunctioncall():
             return
-- 
2.43.0


From 4f81e30d6165055f3940cdeaa912b8d2907dae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 56/92] fix: follow variables that a function assigns more than
 once

---
 pyverilog/dataflow/visit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 1b3f429..338301e 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -802,7 +802,7 @@ class FrameTable(object):
 
     def getBlockingAssign(self, dst, scope):
         p = scope
-        while self.dict[p].isAlways():
+        while self.dict[p].isAlways() or self.dict[p].isFunctioncall():
             ret = self.dict[p].getBlockingAssign(dst)
             if ret:
                 return ret
-- 
2.43.0


From e5662a3d3f2054f353f7921835da113941f252dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 57/92] fix: tell parts of one signal apart by both of their
 bounds

---
 pyverilog/dataflow/visit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 338301e..8fbde17 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -508,7 +508,7 @@ class Frame(object):
             return
         current = self.blockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.blockingassign[dst][c_i].tree = bind.tree
                 return
         self.blockingassign[dst] = current + (bind,)
@@ -527,7 +527,7 @@ class Frame(object):
             return
         current = self.nonblockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.nonblockingassign[dst][c_i].tree = copy.deepcopy(bind.tree)
                 return
         self.nonblockingassign[dst] = current + (copy.deepcopy(bind),)
-- 
2.43.0


From 60226d61fac198aa83e90ed5be06af8c295b246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 58/92] fix: gates with several outputs, and gate terminals
 that do not end at bit 0

---
 pyverilog/dataflow/bindvisitor.py | 32 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 651be2e..838dc3b 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -202,21 +202,27 @@ class BindVisitor(NodeVisitor):
 
     def _visit_Instance_primitive(self, node, arrayindex=None):
         primitive_type = primitives[node.module]
-        left = node.portlist[0].argname
-        if arrayindex is not None:
-            left = Pointer(left, IntConst(str(arrayindex)))
-        right = None
-        if primitive_type == None:
-            right = (Pointer(node.portlist[1].argname, IntConst('0')) if arrayindex is None else
-                     Pointer(node.portlist[1].argname, IntConst(str(arrayindex))))
+        args = [p.argname for p in node.portlist]
+        # all the terminals of buf and not but the last one are outputs
+        num_outputs = len(args) - 1 if primitive_type in (None, Unot) else 1
+        inputs = [self.selectGateBit(arg, arrayindex) for arg in args[num_outputs:]]
+        if primitive_type is None:
+            right = inputs[0]
         elif primitive_type == Unot:
-            right = (Ulnot(Pointer(node.portlist[1].argname, IntConst('0'))) if arrayindex is None else
-                     Ulnot(Pointer(node.portlist[1].argname, IntConst(str(arrayindex)))))
+            right = Ulnot(inputs[0])
         else:
-            concat_list = ([Pointer(p.argname, IntConst('0')) for p in node.portlist[1:]] if arrayindex is None else
-                           [Pointer(p.argname, IntConst(str(arrayindex))) for p in node.portlist[1:]])
-            right = primitive_type(Concat(concat_list))
-        self.addBind(left, right, bindtype='assign')
+            right = primitive_type(Concat(inputs))
+        for left in args[:num_outputs]:
+            if arrayindex is not None:
+                left = self.selectGateBit(left, arrayindex)
+            self.addBind(left, right, bindtype='assign')
+
+    def selectGateBit(self, arg, arrayindex):
+        bit = self.selectArrayPart(arg, arrayindex or 0, 1, self.frames.getCurrent())
+        if bit is arg:  # a single bit
+            msb, lsb = [self.optimize(t).value for t in self.getTermWidth(self.getDst(arg, self.frames.getCurrent())[0])]
+            bit = Pointer(arg, IntConst(str(lsb)))
+        return bit
 
     def visit_Initial(self, node):
         pass
-- 
2.43.0


From 483f934787413e0e9d04927345df0ea789d68ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 59/92] fix: find signals of generate loops by their printed
 names

---
 pyverilog/utils/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyverilog/utils/util.py b/pyverilog/utils/util.py
index c47dd46..4f01a56 100644
--- a/pyverilog/utils/util.py
+++ b/pyverilog/utils/util.py
@@ -11,6 +11,7 @@ from __future__ import print_function
 import sys
 import os
 import copy
+import re
 
 from pyverilog.utils.scope import ScopeLabel, ScopeChain
 
@@ -29,7 +30,12 @@ def toTermname_str(name):
     scopechain_list = []
     for n in name.split('.'):
         # fix me: to support "module.scope.signal[ptr]", lexical analyzer is required.
-        scopechain_list.append(ScopeLabel(n, 'any'))
+        # the iteration of a generate loop is written "loop[n]"
+        m = re.match(r'(.*)\[(-?[0-9]+)\]$', n)
+        if m:
+            scopechain_list.append(ScopeLabel(m.group(1), 'any', int(m.group(2))))
+        else:
+            scopechain_list.append(ScopeLabel(n, 'any'))
     return ScopeChain(scopechain_list)
 
 
-- 
2.43.0


From 5168a406cfebe2a11d4df333dcc79a753bb118d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 60/92] fix: put the partial definitions of a signal together
 at their own bits

Parts were cut at the bits of the destination instead of those of their
value, ranges that do not end at 0 or count upwards were not considered,
bits without definition got widths below zero, and a later unconditional
assignment did not replace an earlier conditional one.
---
 pyverilog/dataflow/merge.py | 300 ++++++++++++++++--------------------
 1 file changed, 131 insertions(+), 169 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index c3216aa..60b5d2e 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -109,50 +109,31 @@ class VerilogDataflowMerge(object):
 
     def getTree(self, termname, ptr=None):
         bindlist = self.getResolvedBindlist(termname)
+        if len(bindlist) == 1 and signaltype.isRename(self.getTermtype(termname)):
+            return self.optimizer.optimize(bindlist[0].tree)
         bindlist = self.getOptimizedBindlist(bindlist)
         if bindlist is None:
             return None
         if len(bindlist) == 0:
             return None
+        if self.hasVariablePosition(bindlist):
+            return DFTerminal(termname)
 
         if self.getTermDims(termname) is not None:
-            discretebinds = {}
-            for bind in bindlist:
-                if isinstance(bind.ptr, DFEvalValue):
-                    ptrval = bind.ptr.value
-                    if not ptrval in discretebinds:
-                        discretebinds[ptrval] = []
-                    discretebinds[ptrval] += [bind]
-                else:
-                    if not 'any' in discretebinds:
-                        discretebinds['any'] = []
-                    discretebinds['any'] += [bind]
-
-            if 'any' in discretebinds:
+            if ptr is None:
                 return DFTerminal(termname)
-
-            if isinstance(ptr, DFEvalValue):
-                if len(discretebinds[ptr.value]) == 0:
-                    return None
-                if len(discretebinds[ptr.value]) == 1:
-                    return discretebinds[ptr.value][0].tree
-                return self.getMergedTree(discretebinds[ptr.value])
-
-            minptr = min(list(discretebinds.keys()))
-            maxptr = max(list(discretebinds.keys()))
-            ret = None
-            for c in range(minptr, maxptr + 1):
-                truetree = None
-                if len(discretebinds[c]) == 0:
-                    continue
-                if len(discretebinds[c]) == 1:
-                    truetree = discretebinds[c][0].tree
-                else:
-                    truetree = self.getMergedTree(discretebinds[c])
-                ret = DFBranch(DFOperator((DFEvalValue(c), ptr), 'Eq'), truetree, ret)
+            ret = DFPointer(DFTerminal(termname), ptr)
+            for bind in bindlist:
+                if bind.ptr is None or bind.msb is not None:
+                    return DFPointer(DFTerminal(termname), ptr)
+                tree = self.fillTree(bind.tree, ret)
+                if bind.ptr == ptr:
+                    ret = tree
+                elif not isinstance(bind.ptr, DFEvalValue) or not isinstance(ptr, DFEvalValue):
+                    ret = DFBranch(DFOperator((bind.ptr, ptr), 'Eq'), tree, ret)
             return ret
 
-        if len(bindlist) == 1:
+        if len(bindlist) == 1 and self.isWhole(bindlist[0]):
             return bindlist[0].tree
         new_tree = self.getMergedTree(bindlist)
         return self.optimizer.optimize(new_tree)
@@ -279,32 +260,92 @@ class VerilogDataflowMerge(object):
 
     def getMergedTree(self, optimized_bindlist):
         concatlist = []
-        last_msb = -1
-        last_ptr = -1
-
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = abs(self.optimizer.optimize(term.msb).value -
-                         self.optimizer.optimize(term.lsb).value) + 1
-            return ptr * length + lsb
-        for bind in sorted(optimized_bindlist, key=bindkey):
-            lsb = 0 if bind.lsb is None else bind.lsb.value
-            if last_ptr != (-1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value):
-                continue
-            if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
-            concatlist.append(bind.tree)
-            last_msb = -1 if bind.msb is None else bind.msb.value
-            last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
+        next_lsb = 0
+        for bind in sorted(optimized_bindlist, key=lambda x: self.getBindRange(x)[1]):
+            msb, lsb = self.getBindRange(bind)
+            if next_lsb < lsb:  # bits without a definition
+                concatlist.append(self.getTermPart(bind.dest, lsb - 1, next_lsb))
+            concatlist.append(self.fillTree(bind.tree, self.getTermPart(bind.dest, msb, lsb)))
+            next_lsb = msb + 1
+        width = self.optimizer.getTermWidth(bind.dest)
+        if next_lsb < width:
+            concatlist.append(self.getTermPart(bind.dest, width - 1, next_lsb))
         return DFConcat(tuple(reversed(concatlist)))
 
+    def getTermPart(self, termname, msb, lsb):
+        term = DFTerminal(termname)
+        return DFPartselect(term, self.optimizer.getIndex(term, msb), self.optimizer.getIndex(term, lsb))
+
+    def fillTree(self, tree, part):
+        # a part that is not assigned keeps its value
+        if tree is None or isinstance(tree, DFUndefined):
+            return part
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.fillTree(tree.truenode, part), self.fillTree(tree.falsenode, part))
+        return tree
+
+    def getPosition(self, var, index):
+        # position of the bit with this index, from the least significant bit
+        if isinstance(index, DFEvalValue):
+            return self.optimizer.getOffset(var, index)
+        msb, lsb = self.optimizer.getRange(var.name)
+        if msb is None or (lsb == 0 and msb >= lsb):
+            return index
+        if msb < lsb:
+            return DFOperator((DFEvalValue(lsb), index), 'Minus')
+        return DFOperator((index, DFEvalValue(lsb)), 'Minus')
+
+    def selectTree(self, tree, msb, lsb):
+        # bits of the value of the tree, counted from its least significant bit
+        if tree is None:
+            return None
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.selectTree(tree.truenode, msb, lsb),
+                            self.selectTree(tree.falsenode, msb, lsb))
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            return self.optimizer.makePartselect(None, tree, msb, lsb)
+        if isinstance(tree, DFPartselect) and isinstance(tree.lsb, DFEvalValue):
+            offset = self.getPosition(tree.var, tree.lsb).value if isinstance(
+                tree.var, DFTerminal) else tree.lsb.value
+            return self.selectTree(tree.var, DFEvalValue(msb.value + offset), DFEvalValue(lsb.value + offset))
+        if not self.optimizer.hasWidth(tree):
+            return self.optimizer.makePartselect(None, tree, msb, lsb)
+        width = self.optimizer.getWidth(tree)
+        nodes = (tree,)
+        if width <= msb.value and not isinstance(tree, (DFUndefined, DFHighImpedance)):
+            nodes = (DFEvalValue(0, msb.value - width + 1), tree)
+        return self.optimizer.takePart(nodes, msb, lsb)
+
+    def getBindRange(self, bind):
+        # positions of the assigned bits, from the least significant bit
+        term = DFTerminal(bind.dest)
+        if bind.msb is None or bind.lsb is None:
+            if not isinstance(self.getTerm(bind.dest).msb, DFNode):
+                return 0, 0
+            return self.optimizer.getTermWidth(bind.dest) - 1, 0
+        msb = self.optimizer.optimizeConstant(bind.msb)
+        lsb = self.optimizer.optimizeConstant(bind.lsb)
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            raise verror.FormatError('MSB and LSB should be constant.')
+        return self.getPosition(term, msb).value, self.getPosition(term, lsb).value
+
+    def isWhole(self, bind):
+        if bind.msb is None or bind.lsb is None:
+            return True
+        return self.getBindRange(bind) == (self.optimizer.getTermWidth(bind.dest) - 1, 0)
+
+    def hasVariablePosition(self, bindlist):
+        for bind in bindlist:
+            for pos in (bind.msb, bind.lsb):
+                if pos is not None and not isinstance(self.optimizer.optimize(pos), DFEvalValue):
+                    return True
+        return False
+
     def getOptimizedBindlist(self, bindlist):
         if len(bindlist) == 0:
             return ()
         new_bindlist = []
-        for bind in bindlist:
+        for bind in self.expandBindlist(bindlist):
             tree = self.optimizer.optimize(bind.tree)
             msb = self.optimizer.optimize(bind.msb)
             lsb = self.optimizer.optimize(bind.lsb)
@@ -315,35 +356,48 @@ class VerilogDataflowMerge(object):
             new_bind.lsb = lsb
             new_bind.ptr = ptr
             new_bindlist.append(new_bind)
-        if len(new_bindlist) == 1:
-            return (new_bindlist[0],)
+        if len(new_bindlist) == 1 or self.hasVariablePosition(new_bindlist):
+            return tuple(new_bindlist)
         split_positions = self.splitPositions(tuple(new_bindlist))
         new_bindlist = self.splitBindlist(tuple(new_bindlist), split_positions)
         return self.mergeBindlist(tuple(new_bindlist))
 
+    def expandBindlist(self, bindlist):
+        # a bit assigned at a variable index: each bit is assigned if the index is its own
+        ret = []
+        for bind in bindlist:
+            index = self.optimizer.optimize(bind.msb)
+            if bind.ptr is not None or index is None or isinstance(index, DFEvalValue) or bind.msb != bind.lsb:
+                ret.append(bind)
+                continue
+            term = DFTerminal(bind.dest)
+            for position in range(self.optimizer.getTermWidth(bind.dest)):
+                new_bind = copy.deepcopy(bind)
+                new_bind.msb = new_bind.lsb = self.optimizer.getIndex(term, position)
+                new_bind.tree = DFBranch(DFOperator((index, new_bind.msb), 'Eq'), bind.tree, None)
+                ret.append(new_bind)
+        return ret
+
     def mergeBindlist(self, bindlist):
         merged_bindlist = []
         last_bind = None
 
         def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
+            lsb = self.getBindRange(x)[1]
             ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = abs(self.optimizer.optimize(term.msb).value -
-                         self.optimizer.optimize(term.lsb).value) + 1
-            return ptr * length + lsb
+            return ptr, lsb
 
         for bind in sorted(bindlist, key=bindkey):
             if last_bind is None:
                 merged_bindlist.append(copy.deepcopy(bind))
                 last_bind = copy.deepcopy(bind)
-            elif isinstance(last_bind.ptr, DFEvalValue) and isinstance(bind.ptr, DFEvalValue) and last_bind.ptr.value != bind.ptr.value:
+            elif last_bind.ptr != bind.ptr:
                 merged_bindlist.append(copy.deepcopy(bind))
                 last_bind = copy.deepcopy(bind)
-            elif last_bind.lsb is None or bind.lsb is None or last_bind is None or bind.msb is None:
+            elif bind.ptr is not None and not isinstance(bind.ptr, DFEvalValue):
                 merged_bindlist.append(copy.deepcopy(bind))
                 last_bind = copy.deepcopy(bind)
-            elif last_bind.lsb.value == bind.lsb.value and last_bind.msb.value == bind.msb.value:
+            elif self.getBindRange(last_bind) == self.getBindRange(bind):
                 new_tree = self.mergeTree(last_bind.tree, bind.tree)
                 new_tree = self.optimizer.optimize(new_tree)
                 merged_bindlist.pop()
@@ -376,9 +430,7 @@ class VerilogDataflowMerge(object):
             return second
 
         if isinstance(first, DFBranch) and not isinstance(second, DFBranch):
-            cond_fst = self.optimizer.optimize(first.condnode)
-            appended = copy.deepcopy(second)
-            return DFBranch(cond_fst, self.appendTail(appended, first.truenode), self.appendTail(appended, first.falsenode))
+            return second  # assigned whatever the condition of the first one
         if not isinstance(first, DFBranch) and isinstance(second, DFBranch):
             cond_snd = self.optimizer.optimize(second.condnode)
             appended = copy.deepcopy(first)
@@ -412,118 +464,28 @@ class VerilogDataflowMerge(object):
 
     def splitBind(self, bind, splitpos):
         tree = bind.tree
-        msb = self.optimizer.optimizeConstant(bind.msb)
-        lsb = self.optimizer.optimizeConstant(bind.lsb)
-        ptr = self.optimizer.optimizeConstant(bind.ptr)
-        if ptr is not None and msb is None or lsb is None:
-            if self.getTermDims(bind.dest) is not None:
-                msb = self.optimizer.optimizeConstant(copy.deepcopy(term.msb))
-                lsb = self.optimizer.optimizeConstant(copy.deepcopy(term.lsb))
-            else:
-                msb = copy.deepcopy(ptr)
-                lsb = copy.deepcopy(ptr)
-        if ptr is None and msb is None or lsb is None:
-            term = self.getTerm(bind.dest)
-            msb = self.optimizer.optimizeConstant(copy.deepcopy(term.msb))
-            lsb = self.optimizer.optimizeConstant(copy.deepcopy(term.lsb))
-        if splitpos > lsb.value and splitpos <= msb.value:  # split
-            right_lsb = lsb.value
-            right_msb = splitpos - 1
-            right_width = splitpos - lsb.value
-            left_lsb = splitpos
-            left_msb = msb.value
-            left_width = msb.value - splitpos + 1
-            right_tree = reorder.reorder(DFPartselect(copy.deepcopy(
-                tree), DFEvalValue(right_width - 1), DFEvalValue(0)))
-            left_tree = reorder.reorder(DFPartselect(copy.deepcopy(tree), DFEvalValue(
-                msb.value), DFEvalValue(msb.value - left_width + 1)))
+        msb, lsb = self.getBindRange(bind)
+        if splitpos > lsb and splitpos <= msb:  # split
+            term = DFTerminal(bind.dest)
+            right_tree = self.selectTree(reorder.reorder(tree), DFEvalValue(splitpos - lsb - 1), DFEvalValue(0))
+            left_tree = self.selectTree(reorder.reorder(tree), DFEvalValue(msb - lsb), DFEvalValue(splitpos - lsb))
             right_tree = self.optimizer.optimize(right_tree)
             left_tree = self.optimizer.optimize(left_tree)
             left_bind = copy.deepcopy(bind)
             left_bind.tree = left_tree
-            left_bind.msb = DFEvalValue(left_msb)
-            left_bind.lsb = DFEvalValue(left_lsb)
+            left_bind.msb = self.optimizer.getIndex(term, msb)
+            left_bind.lsb = self.optimizer.getIndex(term, splitpos)
             right_bind = copy.deepcopy(bind)
             right_bind.tree = right_tree
-            right_bind.msb = DFEvalValue(right_msb)
-            right_bind.lsb = DFEvalValue(right_lsb)
+            right_bind.msb = self.optimizer.getIndex(term, splitpos - 1)
+            right_bind.lsb = self.optimizer.getIndex(term, lsb)
             return left_bind, right_bind
         return bind, None
 
     def splitPositions(self, bindlist):
         split_positions = set([])
-        assigned_range = []  # (msb, lsb, ptr)
-
         for bind in bindlist:
-            ptr = self.optimizer.optimizeConstant(bind.ptr)
-            msb = self.optimizer.optimizeConstant(bind.msb)
-            lsb = self.optimizer.optimizeConstant(bind.lsb)
-            if msb is None and lsb is None:
-                term = self.getTerm(bind.dest)
-                msb = self.optimizer.optimizeConstant(term.msb)
-                lsb = self.optimizer.optimizeConstant(term.lsb)
-            elif not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
-                raise FormatError('MSB and LSB should be constant.')
-
-            if ptr is None or isinstance(ptr, DFEvalValue):
-                ptrval = None if ptr is None else ptr.value
-                matched_range = self.matchedRange(
-                    tuple(assigned_range), msb.value, lsb.value, ptrval)
-                unmatched_range = self.unmatchedRange(
-                    tuple(matched_range), msb.value, lsb.value, ptrval)
-                split_positions |= self.getPositionsFromRange(matched_range, ptrval)
-                assigned_range += matched_range + unmatched_range
-
+            msb, lsb = self.getBindRange(bind)
+            split_positions.add(lsb)
+            split_positions.add(msb + 1)
         return tuple(sorted(list(split_positions)))
-
-    def getPositionsFromRange(self, matched_range, search_ptr):
-        positions = set([])
-        for msb, lsb, ptr in matched_range:
-            if search_ptr is not None and search != ptr:
-                continue
-            positions.add(lsb)
-            positions.add(msb + 1)
-        return positions
-
-    def matchedRange(self, assigned_range, search_msb, search_lsb, search_ptr):
-        matched_range = []
-        for msb, lsb, ptr in assigned_range:
-            match = False
-            if search_ptr is not None and ptr != search_ptr:
-                continue
-            if lsb <= search_lsb and search_lsb <= msb:
-                match = True
-                match_lsb = search_lsb
-            else:
-                match_lsb = lsb
-            if lsb <= search_msb and search_msb <= msb:
-                match = True
-                match_msb = search_msb
-            else:
-                match_msb = msb
-            if match:
-                matched_range.append((match_msb, match_lsb, search_ptr))
-        return tuple(matched_range)
-
-    def unmatchedRange(self, matched_range, search_msb, search_lsb, search_ptr):
-        unmatched_range = []
-        minval = None
-        maxval = None
-        last_msb = None
-        for msb, lsb, ptr in sorted(matched_range, key=lambda x: x[0]):
-            if search_ptr is not None and ptr != search_ptr:
-                continue
-            if minval is None or lsb < minval:
-                minval = lsb
-            if maxval is None or msb > maxval:
-                maxval = msb
-            if last_msb is not None and last_msb + 1 > lsb:
-                unmatched_range.append((last_msb + 1, lsb - 1, ptr))
-            last_msb = msb
-        if minval is None and maxval is None:
-            return ((search_msb, search_lsb, search_ptr), )
-        if search_lsb < minval:
-            unmatched_range.append((search_lsb, minval - 1, search_ptr))
-        if maxval < search_msb:
-            unmatched_range.append((maxval + 1, search_msb, search_ptr))
-        return tuple(unmatched_range)
-- 
2.43.0


From bfba294fe4095664a8ca58b53af28ba9d16f4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 61/92] fix: walk selects by the declared range and registers
 at their own time

Selected bits of a signal were taken from the value it stands for by index
instead of by position, branches that keep a value referred to the signal
the walk started from, and registers were not walked twice.
---
 pyverilog/dataflow/replace.py |  6 ++++--
 pyverilog/dataflow/walker.py  | 29 +++++++++++++++++++----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index de4ac8b..f58cb93 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -11,6 +11,7 @@ from __future__ import print_function
 import sys
 import os
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -19,7 +20,8 @@ def replaceUndefined(tree, termname):
         return DFTerminal(termname)
     if isinstance(tree, DFUndefined):
         return DFTerminal(termname)
-    # if isinstance(tree, DFHighImpedance): return DFTerminal(termname)
+    if isinstance(tree, DFHighImpedance):
+        return tree
     if isinstance(tree, DFConstant):
         return tree
     if isinstance(tree, DFEvalValue):
@@ -50,4 +52,4 @@ def replaceUndefined(tree, termname):
         for n in tree.nextnodes:
             nextnodes.append(replaceUndefined(n, termname))
         return DFConcat(tuple(nextnodes))
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index 5b69358..f60e726 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -29,8 +29,9 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
         termname = util.toTermname(name)
         if not termname in self.terms:
             raise verror.DefinitionError('No such signals: %s' % str(name))
-        tree = self.getTree(termname)
-        walked_tree = self.walkTree(tree, visited=set(), step=step)
+        tree = replace.replaceUndefined(self.getTree(termname), termname)
+        visited = set([termname, ]) if self.isCombination(termname) else set()
+        walked_tree = self.walkTree(tree, visited=visited, step=step)
         return replace.replaceUndefined(walked_tree, termname)
 
     def walkTree(self, tree, visited=set([]), step=0, delay=False, msb=None, lsb=None, ptr=None):
@@ -68,6 +69,7 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                 nptr = ptr
 
             nextstep = step
+            nextvisited = visited | set([termname, ])
             if signaltype.isReg(termtype):
                 if (not self.isCombination(termname) and
                     not signaltype.isRename(termtype) and
@@ -76,9 +78,12 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                 if (not self.isCombination(termname)
                         and not signaltype.isRename(termtype)):
                     nextstep -= 1
+                    nextvisited = set()
 
-            return self.walkTree(self.getTree(termname, nptr),
-                                 visited | set([termname, ]), nextstep, delay)
+            nexttree = self.getTree(termname, nptr)
+            if signaltype.isReg(termtype) and not signaltype.isRename(termtype):
+                nexttree = replace.replaceUndefined(nexttree, termname)
+            return self.walkTree(nexttree, nextvisited, nextstep, delay)
 
         if isinstance(tree, DFBranch):
             condnode = self.walkTree(tree.condnode, visited, step, delay)
@@ -96,11 +101,9 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
             msb = self.walkTree(tree.msb, visited, step, delay)
             lsb = self.walkTree(tree.lsb, visited, step, delay)
             var = self.walkTree(tree.var, visited, step, delay, msb=msb, lsb=lsb)
-            if isinstance(var, DFPartselect):
-                child_lsb = self.getTerm(str(tree.var)).lsb.eval()
-                return DFPartselect(var.var, DFIntConst(str(msb.eval() + var.lsb.eval() - child_lsb)),
-                                    DFIntConst(str(lsb.eval() + var.lsb.eval() - child_lsb)))
-            return DFPartselect(var, msb, lsb)
+            if isinstance(tree.var, DFTerminal) and var != tree.var:
+                return self.selectTree(var, self.getPosition(tree.var, msb), self.getPosition(tree.var, lsb))
+            return self.optimizer.makePartselect(tree.var, var, msb, lsb)
 
         if isinstance(tree, DFPointer):
             ptr = self.walkTree(tree.ptr, visited, step, delay)
@@ -109,7 +112,13 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                 if (self.getTermDims(tree.var.name) is not None and
                         not (isinstance(var, DFTerminal) and var.name == tree.var.name)):
                     return var
-            return DFPointer(var, ptr)
+                return DFPointer(var, ptr)
+            if isinstance(tree.var, DFTerminal) and var != tree.var:
+                position = self.getPosition(tree.var, ptr)
+                if isinstance(position, DFEvalValue):
+                    return self.selectTree(var, position, position)
+                return self.optimizer.makePointer(None, var, position)
+            return self.optimizer.makePointer(tree.var, var, ptr)
 
         if isinstance(tree, DFConcat):
             nextnodes = []
-- 
2.43.0


From 1ee4b3ab1c05c6d1049f671811e0de5e42670107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:38 +0000
Subject: [PATCH 62/92] fix: type of definitions without a wire or register

---
 pyverilog/dataflow/merge.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 60b5d2e..685ec6e 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -69,8 +69,6 @@ class VerilogDataflowMerge(object):
         termtype = self.getTermtype(termname)
         if signaltype.isWire(termtype):
             return 'assign'
-        if signaltype.isWireArray(termtype):
-            return 'assign'
         if signaltype.isReg(termtype):
             if bind.isClockEdge():
                 return 'clockedge'
-- 
2.43.0


From 41720bb913136793349f9bf4a566428a4d13bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:38 +0000
Subject: [PATCH 63/92] fix: subsets of designs with registers that clock each
 other end

---
 pyverilog/dataflow/subset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 47df2d2..dfcdf53 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -36,12 +36,12 @@ class VerilogSubset(VerilogDataflowMerge):
         self.reset_name = reset_name
         self.reset_edge = reset_edge
 
-    def getBindSubset(self, termname, visited_sources=set()):
+    def getBindSubset(self, termname, visited_sources=frozenset()):
         term = self.getTerm(termname)
         if term is None:
             raise verror.DefinitionError('No such signal')
         bindlist = self.getBindlist(termname)
-        nextsources = visited_sources.copy()
+        nextsources = set(visited_sources)
         ret_binds = collections.OrderedDict()
         for bind in bindlist:
             if not termname in ret_binds:
@@ -49,14 +49,17 @@ class VerilogSubset(VerilogDataflowMerge):
             ret_binds[termname].append(bind)
             if bind.isClockEdge():
                 clock_name = bind.getClockName()
-                if clock_name != util.toTermname((self.topmodule, self.clock_name)):
+                if clock_name == util.toTermname((self.topmodule, self.clock_name)):
+                    continue
+                if clock_name not in nextsources:
+                    nextsources.add(clock_name)
                     r_binds, r_sources = self.getBindSubset(clock_name, nextsources)
                     nextsources |= r_sources
                     ret_binds = util.dictlistmerge(ret_binds, r_binds)
 
         sources = self.getBindSources(termname)
         for source in sources:
-            if source in visited_sources:
+            if source in nextsources:
                 continue
             nextsources.add(source)
             r_binds, r_sources = self.getBindSubset(source, nextsources)
-- 
2.43.0


From a49776c99438253c4958f3227aed58c4d65ea82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:38 +0000
Subject: [PATCH 64/92] fix: declarations of ports, genvars and sizes of
 constants in the text of definitions

---
 pyverilog/dataflow/dataflow.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index c30cd8e..f2a49bb 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -362,7 +362,11 @@ class DFConcat(DFNotTerminal):
     def tocode(self, dest='dest'):
         ret = '{'
         for n in self.nextnodes:
-            ret += n.tocode(dest) + ','
+            code = n.tocode(dest)
+            if isinstance(n, DFEvalValue) and n.width == 32:
+                # an operand of a concatenation needs a size
+                code = code.replace("'d", "32'd")
+            ret += code + ','
         ret = ret[:-1]
         ret += '}'
         return ret
@@ -737,11 +741,10 @@ class Term(object):
             elif signaltype.isOutput(self.termtype):
                 code += 'output '
         else:
-            if signaltype.isInput(self.termtype):
-                code += 'wire '
-            elif signaltype.isInout(self.termtype):
-                code += 'wire '
-            elif signaltype.isOutput(self.termtype) and not signaltype.isReg(self.termtype):
+            if ((signaltype.isInput(self.termtype) or signaltype.isInout(self.termtype)
+                 or signaltype.isOutput(self.termtype))
+                    and not signaltype.isReg(self.termtype)
+                    and not signaltype.isWire(self.termtype)):
                 code += 'wire '
 
         if signaltype.isReg(self.termtype):
@@ -750,6 +753,8 @@ class Term(object):
             code += 'wire '
         if signaltype.isInteger(self.termtype):
             code += 'integer '
+        if signaltype.isGenvar(self.termtype):
+            return code + 'genvar ' + flatname + ';\n'
         if signaltype.isFunction(self.termtype):
             code += 'wire '
         if signaltype.isRename(self.termtype):
-- 
2.43.0


From c889a409364cc8cd706c93410ecbbe37a79c078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 65/92] fix: graphs show every operand and one leaf per signal

---
 pyverilog/dataflow/graphgen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/graphgen.py b/pyverilog/dataflow/graphgen.py
index a23c406..2915ea7 100644
--- a/pyverilog/dataflow/graphgen.py
+++ b/pyverilog/dataflow/graphgen.py
@@ -43,7 +43,7 @@ class VerilogGraphGenerator(object):
         self.binddict = binddict
         self.resolved_terms = resolved_terms
         self.resolved_binddict = resolved_binddict
-        self.graph = pgv.AGraph(directed=True)  # pgv.AGraph(strict=False, directed=True)
+        self.graph = pgv.AGraph(strict=False, directed=True)
         self.filename = filename
         self.withcolor = withcolor
 
@@ -59,6 +59,8 @@ class VerilogGraphGenerator(object):
         tree = self.treewalker.getTree(termname)
         if tree is None:
             raise verror.DefinitionError('No such signals: %s' % str(signalname))
+        # the name with its scope types, for the printed name
+        termname = self.treewalker.getTerm(termname).name
         if walk:
             tree = self.treewalker.walkTree(tree, visited=set(), step=step, delay=delay)
             if do_reorder:
-- 
2.43.0


From 819e6a33c2d1f6b3c06965a2eb565f1efea784c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:52 +0000
Subject: [PATCH 66/92] fix: state variables that keep or exchange their values
 end the search for delayed copies

---
 pyverilog/controlflow/controlflow_analyzer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 0ebae8a..7765949 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -79,7 +79,9 @@ class VerilogControlflowAnalyzer(VerilogSubset):
                 fsm.construct(func.value, statenode)
         return fsm
 
-    def getFuncdict(self, termname, delaycnt=0):
+    def getFuncdict(self, termname, delaycnt=0, visited=()):
+        if termname in visited:
+            return {}, 0
         termtype = self.getTermtype(termname)
         if not self.isClockEdge(termname):
             return {}, 0
@@ -91,7 +93,7 @@ class VerilogControlflowAnalyzer(VerilogSubset):
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
             next_term = list(funcdict.values())[0]
             if isinstance(next_term, DFTerminal):
-                return self.getFuncdict(next_term.name, delaycnt + 1)
+                return self.getFuncdict(next_term.name, delaycnt + 1, visited + (termname,))
         return funcdict, delaycnt
 
     def isFsmVar(self, termname):
-- 
2.43.0


From e04af0ca5c76fdb3da06bbb35a9a6cdd1738c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:52 +0000
Subject: [PATCH 67/92] fix: all loops of a state machine are reported,
 whatever their number and length

---
 pyverilog/controlflow/controlflow_analyzer.py | 79 ++++++++-----------
 1 file changed, 35 insertions(+), 44 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 7765949..a900df9 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -253,54 +253,45 @@ class FiniteStateMachine(object):
 
     def get_loop(self):
         loops = set([])
-        loop_node_cnt = {}
-        for k in sorted(self.fsm.keys()):
-            if not k in self.fsm:
-                continue
-            if not k in loop_node_cnt:
-                loop_node_cnt[k] = 0
-            if loop_node_cnt[k] >= len(self.fsm[k].values()):
-                continue
-            paths = self.get_looppath(k)
-            for path in paths:
-                rotated = self.rotate(path)
-                if rotated not in loops:
-                    loops.add(rotated)
-                    for r in rotated:
-                        if not r in loop_node_cnt:
-                            loop_node_cnt[r] = 0
-                        loop_node_cnt[r] += 1
+        for k in self.fsm.keys():
+            loops |= self.get_looppath(k)
         return loops
 
-    def rotate(self, path):
-        minval = min(path)
-        minval_pos = path.index(minval)
-        return path[minval_pos:] + path[:minval_pos]
-
     def get_looppath(self, src):
+        """ returns the loops whose smallest state is src, starting with it """
+        returnable = self._get_returnable(src)
         paths = set([])
-        if not src in self.fsm:
-            return paths
-        nextnodes = set(self.fsm[src].values())
-        for n in nextnodes:
-            r = self._looppath(src, n, visited=set([n]))
-            if len(r) > 0:
-                paths |= r
+        path = [src]
+        stack = [self._get_nextnodes(src)]
+        while stack:
+            if not stack[-1]:
+                stack.pop()
+                path.pop()
+                continue
+            node = stack[-1].pop()
+            if node == src:
+                paths.add(tuple(path))
+            elif node in returnable and node not in path:
+                path.append(node)
+                stack.append(self._get_nextnodes(node))
         return paths
 
-    def _looppath(self, src, node, visited, cnt=0):
-        paths = set([])
-        if cnt > 50:
-            return paths
-        if src == node:
-            paths.add((src,))
-            return paths
+    def _get_nextnodes(self, node):
         if not node in self.fsm:
-            return paths
-        nextnodes = set(self.fsm[node].values()) - visited
-        for n in nextnodes:
-            r = self._looppath(src, n, visited=visited | set([node]), cnt=cnt + 1)
-            if len(r) > 0:
-                for np in r:
-                    paths.add((node,) + np)
-        return paths
+            return set([])
+        return set(self.fsm[node].values())
+
+    def _get_returnable(self, src):
+        """ returns the larger states from which src is reached without passing a smaller state """
+        prevnodes = {}
+        for node in self.fsm.keys():
+            for n in self._get_nextnodes(node):
+                prevnodes.setdefault(n, []).append(node)
+        returnable = set([])
+        rest = [src]
+        while rest:
+            for p in prevnodes.get(rest.pop(), ()):
+                if p > src and p not in returnable:
+                    returnable.add(p)
+                    rest.append(p)
+        return returnable
-- 
2.43.0


From 079742faedf66b76167b0202c76bb992f07e8a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:52 +0000
Subject: [PATCH 68/92] fix: only tests of a reset signal are taken for the
 reset of a state machine

---
 pyverilog/controlflow/splitter.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pyverilog/controlflow/splitter.py b/pyverilog/controlflow/splitter.py
index c2ad643..0ea5a8c 100644
--- a/pyverilog/controlflow/splitter.py
+++ b/pyverilog/controlflow/splitter.py
@@ -39,11 +39,15 @@ def split(tree):
 
 def remove_reset_condition(funcdict):
     new_funcdict = {}
+    condlists = [remove_reset_condlist(condlist) for condlist in funcdict.keys()]
     for _condlist, func in funcdict.items():
         condlist = remove_reset_condlist(_condlist)
+        if len(_condlist) > 0 and _remove_reset_cond(_condlist[-1]) is None:
+            # value under the reset, if the same conditions without it lead to others
+            size = len(condlist)
+            if any([len(c) > size and c[:size] == condlist for c in condlists]):
+                continue
         new_funcdict[condlist] = func
-    if () in new_funcdict and len(new_funcdict) > 1:
-        del new_funcdict[()]
     return new_funcdict
 
 
@@ -57,12 +61,25 @@ def remove_reset_condlist(condlist):
 
 
 def _remove_reset_cond(cond):
-    condstr = cond.tostr()
-    if signaltype.isReset(condstr):
+    term = _get_tested_term(cond)
+    if term is not None and signaltype.isReset(str(term.name[-1])):
         return None
     return cond
 
 
+def _get_tested_term(cond):
+    """ returns the only signal that is tested by the condition """
+    if isinstance(cond, DFTerminal):
+        return cond
+    if isinstance(cond, DFPointer):
+        return _get_tested_term(cond.var)
+    if isinstance(cond, DFOperator):
+        nextnodes = [n for n in cond.nextnodes if not isinstance(n, (DFConstant, DFEvalValue))]
+        if len(nextnodes) == 1:
+            return _get_tested_term(nextnodes[0])
+    return None
+
+
 def active_constant(termname, node, op='>', value=0):
     if not isinstance(node, DFEvalValue):
         return False
-- 
2.43.0


From 46ce7704f0fa47f466eddcdf3f3447d162c1e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:52 +0000
Subject: [PATCH 69/92] fix: active conditions of signals that are active under
 reset

---
 pyverilog/controlflow/active_analyzer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index 273f3cc..d171310 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -29,11 +29,10 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
             return {}
         tree = self.makeTree(termname)
         funcdict = splitter.split(tree)
-        funcdict = splitter.filter(funcdict, termname, condition)
         funcdict = splitter.remove_reset_condition(funcdict)
+        funcdict = splitter.filter(funcdict, termname, condition)
 
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
-            func = funcdict.values()[0]
             return {termname: (('any', None), )}
 
         active_conditions = {}
-- 
2.43.0


From 5a652761f43d94730f800b9d57c49cb997ee61f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:52 +0000
Subject: [PATCH 70/92] fix: state transitions under reductions, vector
 operators, comparisons with signals and contradicting tests

---
 pyverilog/controlflow/controlflow_analyzer.py | 22 +++++++++++++++++++
 pyverilog/controlflow/transition.py           | 22 +++++++++----------
 pyverilog/utils/inference.py                  |  5 +----
 pyverilog/utils/signaltype.py                 |  8 +++----
 4 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index a900df9..4b871b6 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -117,8 +117,30 @@ class VerilogControlflowAnalyzer(VerilogSubset):
         tree = reorder.reorder(tree)
         tree = self.optimizer.optimize(tree)
         tree = replace.replaceUndefined(tree, termname)
+        tree = self.makeCondition(tree)
         return tree
 
+    def makeCondition(self, tree):
+        """ rewrites the bitwise operators of 1-bit operands in conditions to logical ones """
+        if not isinstance(tree, DFBranch):
+            return tree
+        return DFBranch(self._makeCondition(tree.condnode),
+                        self.makeCondition(tree.truenode), self.makeCondition(tree.falsenode))
+
+    def _makeCondition(self, cond):
+        logical_ops = {'And': 'Land', 'Or': 'Lor', 'Unot': 'Ulnot'}
+        if not isinstance(cond, DFOperator):
+            return cond
+        if cond.operator in logical_ops:
+            if not all([self.optimizer.isBoolean(n) for n in cond.nextnodes]):
+                return cond
+            operator = logical_ops[cond.operator]
+        elif cond.operator in logical_ops.values():
+            operator = cond.operator
+        else:
+            return cond
+        return DFOperator(tuple([self._makeCondition(n) for n in cond.nextnodes]), operator)
+
 
 class FiniteStateMachine(object):
     def __init__(self, name):
diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 084c113..4258174 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -45,10 +45,11 @@ def walkCond(cond, termname, termwidth=32):
 
 
 def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
-    node = walkCond(cond.nextnodes[0], termname, termwidth)
     if signaltype.isNot(cond.operator):
-        node = notStateNodeList(node)
-    return node
+        node = walkCond(cond.nextnodes[0], termname, termwidth)
+        return notStateNodeList(node)
+    maxvalue = util.maxValue(termwidth)
+    return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
 
 def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
@@ -72,10 +73,10 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
 
-    if isinstance(l, DFTerminal) and l.name == termname:
+    if isinstance(l, DFTerminal) and l.name == termname and isinstance(r, DFEvalValue):
         infval = inference.infer(cond.operator, r)
         return createStateNode(infval, termwidth)
-    if isinstance(r, DFTerminal) and r.name == termname:
+    if isinstance(r, DFTerminal) and r.name == termname and isinstance(l, DFEvalValue):
         new_op = re.sub('Greater', 'TMP', cond.operator)
         new_op = re.sub('Less', 'Greater', new_op)
         new_op = re.sub('TMP', 'Less', new_op)
@@ -166,6 +167,8 @@ def andStateNodeList(lnode, rnode):
 
 
 def notStateNode(node):
+    if node.isany and node.transcond is None:
+        return StateNode(maxvalue=node.maxvalue)
     if node.isany:
         new_transcond = _not_transcond(node.transcond)
         return StateNode(transcond=new_transcond, maxvalue=node.maxvalue, isany=True)
@@ -197,9 +200,6 @@ def andStateNode(sna, snb):
     elif len(sna.range_pairs) > 0 and len(snb.range_pairs) > 0:
         range_pairs = _and_range_pairs(sna, snb)
 
-    if (not isany) and len(range_pairs) == 0:
-        return None
-
     transcond = None
     if isinstance(sna.transcond, DFNode) and isinstance(snb.transcond, DFNode):
         transcond = DFOperator((sna.transcond, snb.transcond), 'Land')
@@ -261,8 +261,6 @@ def _not_transcond(transcond):
         return None
     elif isinstance(transcond, DFOperator) and transcond.operator == 'Ulnot':
         return transcond.nextnodes[0]
-    elif isinstance(transcond, DFOperator) and transcond.operator == 'Unot':
-        return transcond.nextnodes[0]
     return DFOperator((transcond,), 'Ulnot')
 
 
@@ -274,7 +272,9 @@ def createStateNode(infval, width):
         minval = 0
     if maxval is None:
         maxval = util.maxValue(width)
-    ret = StateNode(((minval, maxval),), 0, util.maxValue(width), None)
+    maxval = min(maxval, util.maxValue(width))
+    range_pairs = ((minval, maxval),) if minval <= maxval else ()
+    ret = StateNode(range_pairs, 0, util.maxValue(width), None)
     if infval.inv:
         ret = notStateNodeList(ret)
     return ret
diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index d241360..4c0f35a 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -30,9 +30,6 @@ def infer(op, node):
 def op_LessThan(val):
     minval = 0
     maxval = val - 1
-    if maxval < 0:
-        minval = None
-        maxval = None
     return InferredValue(minval, maxval)
 
 
@@ -42,7 +39,7 @@ def op_GreaterThan(val):
     return InferredValue(minval, maxval)
 
 
-def op_LassEq(val):
+def op_LessEq(val):
     minval = 0
     maxval = val
     return InferredValue(minval, maxval)
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index 4371c52..ac79b98 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -85,10 +85,10 @@ def isReset(search_str):
 
 
 # Operator
-compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
-not_ops = ('Ulnot', 'Unot')
-split_and_ops = ('And', 'Land')
-split_or_ops = ('Or', 'Lor')
+compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+not_ops = ('Ulnot',)
+split_and_ops = ('Land',)
+split_or_ops = ('Lor',)
 non_condition_ops = compare_ops + not_ops + split_and_ops + split_or_ops
 
 
-- 
2.43.0


From 3bdaebf5d97f4734db40210c84fb12ba2a01cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 71/92] fix: compare and hash syntax trees by all of their
 fields, visit scope indices

---
 pyverilog/vparser/ast.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index df288ed..9e0435e 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -56,27 +56,19 @@ class Node(object):
         if type(self) != type(other):
             return False
 
-        self_attrs = tuple([getattr(self, a) for a in self.attr_names])
-        other_attrs = tuple([getattr(other, a) for a in other.attr_names])
-
-        if self_attrs != other_attrs:
-            return False
-
-        other_children = other.children()
-
-        for i, c in enumerate(self.children()):
-            if c != other_children[i]:
-                return False
-
-        return True
+        return self._fields() == other._fields()
 
     def __ne__(self, other):
         return not self.__eq__(other)
 
     def __hash__(self):
-        s = hash(tuple([getattr(self, a) for a in self.attr_names]))
-        c = hash(self.children())
-        return hash((s, c))
+        return hash(self._fields())
+
+    def _fields(self):
+        """ names and values of all fields, without the line numbers """
+        fields = [(name, tuple(value) if isinstance(value, list) else value)
+                  for name, value in vars(self).items() if name not in ('lineno', 'end_lineno')]
+        return tuple(sorted(fields, key=lambda x: x[0]))
 
 
 # ------------------------------------------------------------------------------
@@ -1185,7 +1177,7 @@ class SystemCall(Node):
 
 
 class IdentifierScopeLabel(Node):
-    attr_names = ('name', 'loop')
+    attr_names = ('name',)
 
     def __init__(self, name, loop=None, lineno=0):
         self.lineno = lineno
@@ -1194,6 +1186,8 @@ class IdentifierScopeLabel(Node):
 
     def children(self):
         nodelist = []
+        if self.loop:
+            nodelist.append(self.loop)
         return tuple(nodelist)
 
 
@@ -1285,6 +1279,7 @@ class EmbeddedCode(Node):
     attr_names = ('code',)
 
     def __init__(self, code, lineno=0):
+        self.lineno = lineno
         self.code = code
 
     def children(self):
-- 
2.43.0


From b220ab90708c6cbb27da04e8ec0a5d846ac3d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 72/92] fix: rename nodes that are shared once, keep scopes and
 lines, reach names in scope indices

---
 pyverilog/utils/identifierreplace.py | 12 +++++++++++-
 pyverilog/utils/identifiervisitor.py |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyverilog/utils/identifierreplace.py b/pyverilog/utils/identifierreplace.py
index 65355b3..aeab21e 100644
--- a/pyverilog/utils/identifierreplace.py
+++ b/pyverilog/utils/identifierreplace.py
@@ -48,8 +48,17 @@ def children_items(node):
 class IdentifierReplace(object):
     def __init__(self, ids):
         self.ids = ids
+        self.visited = {}  # key: id of a node, value: (node, result)
 
     def visit(self, node):
+        if not isinstance(node, Node):
+            return node
+        # nodes can be shared
+        if id(node) not in self.visited:
+            self.visited[id(node)] = (node, self._visit(node))
+        return self.visited[id(node)][1]
+
+    def _visit(self, node):
         method = 'visit_' + node.__class__.__name__
         visitor = getattr(self, method, self.generic_visit)
         ret = visitor(node)
@@ -73,6 +82,7 @@ class IdentifierReplace(object):
         return node
 
     def visit_Identifier(self, node):
+        self.generic_visit(node)
         if node.name in self.ids:
-            return vast.Identifier(self.ids[node.name])
+            return vast.Identifier(self.ids[node.name], node.scope, node.lineno)
         return node
diff --git a/pyverilog/utils/identifiervisitor.py b/pyverilog/utils/identifiervisitor.py
index 2f906ef..ef6fd28 100644
--- a/pyverilog/utils/identifiervisitor.py
+++ b/pyverilog/utils/identifiervisitor.py
@@ -33,3 +33,4 @@ class IdentifierVisitor(NodeVisitor):
 
     def visit_Identifier(self, node):
         self.identifiers.append(node.name)
+        self.generic_visit(node)
-- 
2.43.0


From 9408a948f4cb19cd009b3cf4f896ef1670d9b4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:46 +0000
Subject: [PATCH 73/92] fix: comparison of delays and hashes of signal records
 raised

---
 pyverilog/dataflow/dataflow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index f2a49bb..bc5e8af 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -631,10 +631,10 @@ class DFDelay(DFNotTerminal):
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        return self.nextnodes == other.nextnodes
+        return self.nextnode == other.nextnode
 
     def __hash__(self):
-        return hash(tuple(self.nextnodes))
+        return hash(self.nextnode)
 
 
 class DFSyscall(DFNotTerminal):
@@ -719,7 +719,8 @@ class Term(object):
                 and self.dims == other.dims)
 
     def __hash__(self):
-        return hash((self.name, self.termtype, self.msb, self.lsb, self.dims))
+        dims = None if self.dims is None else tuple(self.dims)
+        return hash((self.name, frozenset(self.termtype), self.msb, self.lsb, dims))
 
     def getScope(self, termname):
         return termname[:-1]
-- 
2.43.0


From 73ab8b012e080af3e19ad97ce40881018b60ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:10 +0000
Subject: [PATCH 74/92] fix: listings show scope indices by value, not by
 address

---
 pyverilog/vparser/ast.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index 9e0435e..df48f6d 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -49,8 +49,19 @@ class Node(object):
 
         buf.write('\n')
 
+        attrs = [getattr(self, n) for n in self.attr_names]
         for c in self.children():
-            c.show(buf, offset + indent, attrnames, showlineno)
+            if not any(c is a for a in attrs):  # written already
+                c.show(buf, offset + indent, attrnames, showlineno)
+
+    def __repr__(self):
+        ret = '(' + self.__class__.__name__
+        for a in self.attr_names:
+            ret += ' ' + str(getattr(self, a))
+        for c in self.children():
+            ret += ' ' + c.__repr__()
+        ret += ')'
+        return ret
 
     def __eq__(self, other):
         if type(self) != type(other):
@@ -1177,7 +1188,7 @@ class SystemCall(Node):
 
 
 class IdentifierScopeLabel(Node):
-    attr_names = ('name',)
+    attr_names = ('name', 'loop')
 
     def __init__(self, name, loop=None, lineno=0):
         self.lineno = lineno
@@ -1190,6 +1201,11 @@ class IdentifierScopeLabel(Node):
             nodelist.append(self.loop)
         return tuple(nodelist)
 
+    def __repr__(self):
+        if self.loop is None:
+            return self.name
+        return self.name + '[' + self.loop.__repr__() + ']'
+
 
 class IdentifierScope(Node):
     attr_names = ()
@@ -1204,6 +1220,9 @@ class IdentifierScope(Node):
             nodelist.extend(self.labellist)
         return tuple(nodelist)
 
+    def __repr__(self):
+        return '.'.join([label.__repr__() for label in self.labellist])
+
 
 class Pragma(Node):
     attr_names = ()
-- 
2.43.0


From 635f80fa7fcfb56aa28ec524f7560c1735302a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 75/92] fix: rename inside scope indices that listings show

---
 pyverilog/utils/identifierreplace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/utils/identifierreplace.py b/pyverilog/utils/identifierreplace.py
index aeab21e..eae84b2 100644
--- a/pyverilog/utils/identifierreplace.py
+++ b/pyverilog/utils/identifierreplace.py
@@ -29,9 +29,9 @@ def ischild(node, attr):
     if attr in excludes:
         return False
     attr_names = getattr(node, 'attr_names')
-    if attr in attr_names:
-        return False
     attr_test = getattr(node, attr)
+    if attr in attr_names and not isinstance(attr_test, Node):
+        return False
     if hasattr(attr_test, '__call__'):
         return False
     return True
-- 
2.43.0


From b9c0f93b0c571c74b0ff2003e3b61c6e3859049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 76/92] fix: order of ports and statements of generated subsets
 depended on the hash seed

---
 pyverilog/dataflow/subset.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index dfcdf53..508beb0 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -58,7 +58,7 @@ class VerilogSubset(VerilogDataflowMerge):
                     ret_binds = util.dictlistmerge(ret_binds, r_binds)
 
         sources = self.getBindSources(termname)
-        for source in sources:
+        for source in sorted(sources, key=str):
             if source in nextsources:
                 continue
             nextsources.add(source)
@@ -84,7 +84,7 @@ class VerilogSubset(VerilogDataflowMerge):
 
     def getSubset(self, targets):
         visited_binddict, visited_sources = self.getBindSourceSubset(targets)
-        return self._discretion(visited_binddict, visited_sources)
+        return self._discretion(visited_binddict, sorted(visited_sources, key=str))
 
     def _discretion(self, visited_binddict, visited_sources):
         terms = collections.OrderedDict()
@@ -107,16 +107,19 @@ class VerilogSubset(VerilogDataflowMerge):
                 assign_type = self.getAssignType(left, right)
                 if assign_type == 'clockedge':
                     if not left in always_clockedge:
-                        always_clockedge[left] = set([])
-                    always_clockedge[left].add(right)
+                        always_clockedge[left] = []
+                    if right not in always_clockedge[left]:
+                        always_clockedge[left].append(right)
                 elif assign_type == 'combination':
                     if not left in always_combination:
-                        always_combination[left] = set([])
-                    always_combination[left].add(right)
+                        always_combination[left] = []
+                    if right not in always_combination[left]:
+                        always_combination[left].append(right)
                 elif assign_type == 'assign':
                     if not left in assign:
-                        assign[left] = set([])
-                    assign[left].add(right)
+                        assign[left] = []
+                    if right not in assign[left]:
+                        assign[left].append(right)
                 elif assign_type == 'parameter':
                     parameter[left] = right
                     continue
-- 
2.43.0


From f067f3e458c0c7bfec4ae374eb972a1e8f3e187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:55 +0000
Subject: [PATCH 77/92] fix: indexed part selects were generated as constant
 part selects with variable bounds

---
 pyverilog/ast_code_generator/codegen.py       | 20 +++++++++++++++++--
 .../template/partselect.txt                   |  2 +-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index e1a64a2..2f460f1 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -106,6 +106,20 @@ def del_space(s):
     return _spaces(lambda m: '' if m.group() == ' ' else m.group(), s)
 
 
+def indexed_partselect(node):
+    # var[base+width-1 : base] is var[base +: width], and
+    # var[base : base-width+1] is var[base -: width], also if base is not constant
+    one = IntConst('1')
+    msb, lsb = node.msb, node.lsb
+    if (isinstance(msb, Minus) and isinstance(msb.left, Plus) and
+            msb.left.left == lsb and msb.right == one):
+        return lsb, ' +: ', msb.left.right
+    if (isinstance(lsb, Plus) and isinstance(lsb.left, Minus) and
+            lsb.left.left == msb and lsb.right == one):
+        return msb, ' -: ', lsb.left.right
+    return msb, ':', lsb
+
+
 def takes_else(node):
     # would a following else attach to an if statement at the end of node?
     if isinstance(node, IfStatement):
@@ -497,10 +511,12 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Partselect(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
+        left, separator, right = indexed_partselect(node)
         template_dict = {
             'var': self.visit(node.var),
-            'msb': del_space(del_paren(self.visit(node.msb))),
-            'lsb': del_space(del_paren(self.visit(node.lsb))),
+            'left': del_space(del_paren(self.visit(left))),
+            'separator': separator,
+            'right': del_space(del_paren(self.visit(right))),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/partselect.txt b/pyverilog/ast_code_generator/template/partselect.txt
index c11a2ea..fb7f9b9 100644
--- a/pyverilog/ast_code_generator/template/partselect.txt
+++ b/pyverilog/ast_code_generator/template/partselect.txt
@@ -1 +1 @@
-{{ var }}[{{ msb }}:{{ lsb }}]
+{{ var }}[{{ left }}{{ separator }}{{ right }}]
-- 
2.43.0


From c4594110f04e58fd63664d881b104c0bba50e2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:58 +0000
Subject: [PATCH 78/92] fix: integer parameters lost their width and sign

---
 pyverilog/vparser/parser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index d782da0..17e3d91 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -198,9 +198,13 @@ class VerilogParser(object):
         p[0] = Decl(tuple(paramlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
+    def integer_width(self, lineno):
+        return Width(IntConst('31', lineno=lineno), IntConst('0', lineno=lineno), lineno=lineno)
+
     def p_param_integer(self, p):
         'param : PARAMETER INTEGER param_substitution_list COMMA'
-        paramlist = [Parameter(rname, rvalue, lineno=p.lineno(3))
+        paramlist = [Parameter(rname, rvalue, self.integer_width(p.lineno(2)), signed=True,
+                              lineno=p.lineno(3))
                      for rname, rvalue in p[3]]
         p[0] = Decl(tuple(paramlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
@@ -235,7 +239,8 @@ class VerilogParser(object):
 
     def p_param_end_integer(self, p):
         'param_end : PARAMETER INTEGER param_substitution_list'
-        paramlist = [Parameter(rname, rvalue, lineno=p.lineno(3))
+        paramlist = [Parameter(rname, rvalue, self.integer_width(p.lineno(2)), signed=True,
+                              lineno=p.lineno(3))
                      for rname, rvalue in p[3]]
         p[0] = Decl(tuple(paramlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
@@ -770,7 +775,8 @@ class VerilogParser(object):
 
     def p_parameterdecl_integer(self, p):
         'parameterdecl : PARAMETER INTEGER param_substitution_list SEMICOLON'
-        paramlist = [Parameter(rname, rvalue, lineno=p.lineno(3))
+        paramlist = [Parameter(rname, rvalue, self.integer_width(p.lineno(2)), signed=True,
+                              lineno=p.lineno(3))
                      for rname, rvalue in p[3]]
         p[0] = Decl(tuple(paramlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
@@ -805,7 +811,8 @@ class VerilogParser(object):
 
     def p_localparamdecl_integer(self, p):
         'localparamdecl : LOCALPARAM INTEGER param_substitution_list SEMICOLON'
-        paramlist = [Localparam(rname, rvalue, lineno=p.lineno(3))
+        paramlist = [Localparam(rname, rvalue, self.integer_width(p.lineno(2)), signed=True,
+                               lineno=p.lineno(3))
                      for rname, rvalue in p[3]]
         p[0] = Decl(tuple(paramlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
-- 
2.43.0


From fe5738b9a20c3718906e3728ad37c5afe4475df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 79/92] fix: texts were parsed after all files, joined without
 a line end, and left files behind when preprocessing failed

---
 pyverilog/vparser/preprocessor.py | 73 +++++++++++++++++++------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 4a45548..47d19ce 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -31,31 +31,14 @@ import subprocess
 class VerilogPreprocessor(object):
     def __init__(self, filelist, outputfile='pp.out', include=None, define=None):
 
-        if not isinstance(filelist, (tuple, list)):
-            filelist = list(filelist)
+        if isinstance(filelist, str):
+            filelist = (filelist,)
 
-        # Elements in `filelist` can either be raw Verilog files, or Verilog code
-        # in python string. The following loop iterates through these `sources`,
-        # and normalizes all of them into files.
-        #
-        # For Verilog code in python string, the contents of the string is stored
-        # in a temporary file for further use with `iverilog`.
-        self.temp_files_paths = []
-        self.filelist = []
-
-        for source in filelist:
-            # If `source` is verilog code in python strings
-            if not os.path.isfile(source):
-                temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
-                with open(temp_fd, 'w') as f:
-                    f.write(source)
-
-                self.temp_files_paths.append(temp_path)
+        self.outputfile = outputfile
 
-            else: # else if it is normal verilog file path
-                self.filelist.append(source)
-
-        self.filelist += self.temp_files_paths
+        # Elements in `filelist` can either be raw Verilog files, or Verilog code
+        # in python string. They are normalized into files by `preprocess`.
+        self.filelist = list(filelist)
 
         iverilog = os.environ.get('PYVERILOG_IVERILOG')
         if iverilog is None:
@@ -82,12 +65,44 @@ class VerilogPreprocessor(object):
         self.iv.append(outputfile)
 
     def preprocess(self):
-        cmd = self.iv + list(self.filelist)
-        subprocess.call(cmd)
-
-        # Removing the temporary files that were created
-        for temp_file_path in self.temp_files_paths:
-            os.remove(temp_file_path)
+        temp_files_paths = []
+
+        def make_temp_file(text):
+            temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
+            temp_files_paths.append(temp_path)
+            with open(temp_fd, 'w') as f:
+                f.write(text)
+            return temp_path
+
+        try:
+            paths = []
+            for source in self.filelist:
+                # If `source` is verilog code in python strings, the contents of
+                # the string is stored in a temporary file for `iverilog`.
+                if not os.path.isfile(source):
+                    source = make_temp_file(source)
+                paths.append(source)
+                # The last line of a source must not go on in the next source.
+                if not ends_with_newline(source):
+                    paths.append(make_temp_file('\n'))
+
+            subprocess.check_call(self.iv + paths)
+
+        except subprocess.CalledProcessError:
+            # The output, if any, is not complete.
+            if os.path.isfile(self.outputfile):
+                os.remove(self.outputfile)
+            raise
+
+        finally:
+            # Removing the temporary files that were created
+            for temp_file_path in temp_files_paths:
+                os.remove(temp_file_path)
+
+
+def ends_with_newline(path):
+    with open(path, 'rb') as f:
+        return f.read()[-1:] in (b'', b'\n')
 
 
 def preprocess(
-- 
2.43.0


From 43140bc9fabfd9b240284bc94eaddf0f4ece5e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:53 +0000
Subject: [PATCH 80/92] fix: repeated and contradicting types of declarations
 were accepted or refused without a line, logic variables were dropped

---
 pyverilog/vparser/parser.py | 86 ++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 17e3d91..984fe21 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -364,7 +364,7 @@ class VerilogParser(object):
         p.set_lineno(0, p.lineno(1))
 
     def create_ioport(self, sigtypes, name, width=None, dimensions=None, lineno=0):
-        self.typecheck_ioport(sigtypes)
+        self.typecheck_ioport(sigtypes, name, lineno)
         first = None
         second = None
         signed = False
@@ -390,23 +390,31 @@ class VerilogParser(object):
                          dimensions=dimensions, lineno=lineno)
         return Ioport(first, second, lineno=lineno)
 
-    def typecheck_ioport(self, sigtypes):
+    def typecheck_common(self, sigtypes, name, lineno):
+        if len(set(sigtypes)) != len(sigtypes):
+            self._raise_error_at(name, lineno)
+        kinds = ('wire', 'reg', 'tri', 'logic', 'supply0', 'supply1')
+        if len([t for t in sigtypes if t in kinds]) > 1:
+            self._raise_error_at(name, lineno)
+
+    def typecheck_ioport(self, sigtypes, name, lineno):
+        self.typecheck_common(sigtypes, name, lineno)
         if 'input' not in sigtypes and 'output' not in sigtypes and 'inout' not in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'input' in sigtypes and 'output' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'inout' in sigtypes and 'output' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'inout' in sigtypes and 'input' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'input' in sigtypes and 'reg' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'inout' in sigtypes and 'reg' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'input' in sigtypes and 'tri' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'output' in sigtypes and 'tri' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
 
     def p_ioport(self, p):
         'ioport : sigtypes portname'
@@ -510,7 +518,7 @@ class VerilogParser(object):
 
     # Signal Decl
     def create_decl(self, sigtypes, name, width=None, dimensions=None, lineno=0):
-        self.typecheck_decl(sigtypes, dimensions)
+        self.typecheck_decl(sigtypes, name, lineno, dimensions)
         decls = []
         signed = False
         if 'signed' in sigtypes:
@@ -530,6 +538,9 @@ class VerilogParser(object):
         if 'reg' in sigtypes:
             decls.append(Reg(name=name, width=width,
                              signed=signed, lineno=lineno, dimensions=dimensions))
+        if 'logic' in sigtypes and not decls:
+            decls.append(Reg(name=name, width=width,
+                             signed=signed, lineno=lineno, dimensions=dimensions))
         if 'tri' in sigtypes:
             decls.append(Tri(name=name, width=width,
                              signed=signed, lineno=lineno, dimensions=dimensions))
@@ -541,26 +552,27 @@ class VerilogParser(object):
                                 width=width, signed=signed, lineno=lineno))
         return decls
 
-    def typecheck_decl(self, sigtypes, dimensions=None):
+    def typecheck_decl(self, sigtypes, name, lineno, dimensions=None):
+        self.typecheck_common(sigtypes, name, lineno)
         if ('supply0' in sigtypes or 'supply1' in sigtypes) and \
            dimensions is not None:
-            raise ParseError("SyntaxError")
+            self._raise_error_at(name, lineno)
         if len(sigtypes) == 1 and 'signed' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'input' in sigtypes and 'output' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'inout' in sigtypes and 'output' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'inout' in sigtypes and 'input' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'input' in sigtypes and 'reg' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'inout' in sigtypes and 'reg' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'input' in sigtypes and 'tri' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'output' in sigtypes and 'tri' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
 
     def p_decl(self, p):
         'decl : sigtypes declnamelist SEMICOLON'
@@ -602,7 +614,7 @@ class VerilogParser(object):
 
     # Decl and Assign
     def create_declassign(self, sigtypes, name, assign, width=None, lineno=0):
-        self.typecheck_declassign(sigtypes)
+        self.typecheck_declassign(sigtypes, name, lineno)
         decls = []
         signed = False
         if 'signed' in sigtypes:
@@ -625,25 +637,26 @@ class VerilogParser(object):
         decls.append(assign)
         return decls
 
-    def typecheck_declassign(self, sigtypes):
+    def typecheck_declassign(self, sigtypes, name, lineno):
+        self.typecheck_common(sigtypes, name, lineno)
         if len(sigtypes) == 1 and 'signed' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'reg' not in sigtypes and 'wire' not in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'input' in sigtypes and 'output' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'inout' in sigtypes and 'output' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'inout' in sigtypes and 'input' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'input' in sigtypes and 'reg' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'inout' in sigtypes and 'reg' in sigtypes:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'supply0' in sigtypes and len(sigtypes) != 1:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
         if 'supply1' in sigtypes and len(sigtypes) != 1:
-            raise ParseError("Syntax Error")
+            self._raise_error_at(name, lineno)
 
     def p_declassign(self, p):
         'declassign : sigtypes declassign_element SEMICOLON'
@@ -1563,7 +1576,7 @@ class VerilogParser(object):
                 if (not isinstance(r, Reg) and not isinstance(r, Wire) and
                     not isinstance(r, Integer) and not isinstance(r, Real) and
                         not isinstance(r, Parameter) and not isinstance(r, Localparam)):
-                    raise ParseError("Syntax Error")
+                    self._raise_error_at(r.name, r.lineno)
         p[0] = p[1]
         p.set_lineno(0, p.lineno(1))
 
@@ -2154,7 +2167,7 @@ class VerilogParser(object):
             for r in p[1].list:
                 if (not isinstance(r, Input) and not isinstance(r, Reg) and
                         not isinstance(r, Integer)):
-                    raise ParseError("Syntax Error")
+                    self._raise_error_at(r.name, r.lineno)
         p[0] = p[1]
         p.set_lineno(0, p.lineno(1))
 
@@ -2224,7 +2237,7 @@ class VerilogParser(object):
             for r in p[1].list:
                 if (not isinstance(r, Input) and not isinstance(r, Reg) and
                         not isinstance(r, Integer)):
-                    raise ParseError("Syntax Error")
+                    self._raise_error_at(r.name, r.lineno)
         p[0] = p[1]
         p.set_lineno(0, p.lineno(1))
 
@@ -2330,6 +2343,9 @@ class VerilogParser(object):
 
         raise ParseError("%s: %s" % (coord, msg))
 
+    def _raise_error_at(self, value, lineno):
+        raise ParseError('%s: before: "%s"' % (self._coord(lineno), value))
+
     def _coord(self, lineno, column=None):
         ret = [self.lexer.filename]
         ret.append('line:%s' % lineno)
-- 
2.43.0


From 21fff5d3d17972d24d8786c3b7175705ef7c9fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:53 +0000
Subject: [PATCH 81/92] fix: a name below a select of several dimensions raised
 AttributeError

---
 pyverilog/vparser/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 984fe21..75a8f5a 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -2276,6 +2276,8 @@ class VerilogParser(object):
 
     def p_scope_pointer(self, p):
         'scope : pointer DOT'
+        if not isinstance(p[1].var, Identifier):
+            self._raise_error_at(p[2], p.lineno(2))
         scope = () if p[1].var.scope is None else p[1].var.scope.labellist
         p[0] = IdentifierScope(scope + (IdentifierScopeLabel(p[1].var.name,
                                                              p[1].ptr, lineno=p.lineno(1)),), lineno=p.lineno(1))
-- 
2.43.0


From f5e37091d14dde089928a8066c434bfce8e37fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:31 +0000
Subject: [PATCH 82/92] fix: bits of a conditional are counted from its
 rightmost one, whatever the ranges of its signals

---
 pyverilog/dataflow/reorder.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index 7a891d3..6bd220e 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -63,7 +63,7 @@ def reorder(tree):
         if isinstance(resolved_msb, DFBranch) or isinstance(resolved_lsb, DFBranch):
             raise verror.FormatError('MSB and LSB should not be DFBranch')
         if isinstance(resolved_var, DFBranch):
-            return insertPartselect(resolved_var, resolved_msb, resolved_lsb)
+            return insertPartselect(makeValue(resolved_var), resolved_msb, resolved_lsb)
         return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
 
     if isinstance(tree, DFPointer):
@@ -75,7 +75,7 @@ def reorder(tree):
                             reorder(DFPointer(resolved_var, resolved_ptr.truenode)),
                             reorder(DFPointer(resolved_var, resolved_ptr.falsenode)))
         if isinstance(resolved_var, DFBranch):
-            return insertPointer(resolved_var, resolved_ptr)
+            return insertPointer(makeValue(resolved_var), resolved_ptr)
         return DFPointer(resolved_var, resolved_ptr)
 
     if isinstance(tree, DFDelay):
@@ -128,6 +128,15 @@ def insertConcat(nextnodes):
     return DFConcat(nextnodes)
 
 
+def makeValue(var):
+    """ bits of an expression are counted from its rightmost one, whatever the ranges of its signals """
+    if isinstance(var, DFBranch):
+        return DFBranch(var.condnode, makeValue(var.truenode), makeValue(var.falsenode))
+    if isinstance(var, DFTerminal):
+        return DFConcat((var,))
+    return var
+
+
 def insertPartselect(var, msb, lsb):
     if isinstance(var, DFBranch):
         return DFBranch(var.condnode, insertPartselect(var.truenode, msb, lsb), insertPartselect(var.falsenode, msb, lsb))
-- 
2.43.0


From 88dcc8dd9d548b0880ecdb2b1292dba609f53515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:31 +0000
Subject: [PATCH 83/92] fix: negative constant conditions of generate blocks
 and loops are true

---
 pyverilog/dataflow/bindvisitor.py   | 6 +++---
 pyverilog/dataflow/signalvisitor.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 838dc3b..421fd6c 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -314,7 +314,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
 
-            if rslt.value > 0:
+            if self.optimizer.isCondTrue(rslt):
                 label = self._if_true(node)
                 if node.true_statement is not None:
                     self.copyBlockingAssigns(current + ScopeLabel(label, 'if'), current)
@@ -468,7 +468,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError(("Can not process the for-statement. "
                                           "for-condition should be evaluated statically."))
-            if rslt.value <= 0:
+            if not self.optimizer.isCondTrue(rslt):
                 break
 
             # main-statement
@@ -512,7 +512,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError(("Can not process the while-statement. "
                                           "while-condition should be evaluated statically."))
-            if rslt.value <= 0:
+            if not self.optimizer.isCondTrue(rslt):
                 break
 
             # main-statement
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 5bfba4e..f2397ef 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -178,7 +178,7 @@ class SignalVisitor(NodeVisitor):
             rslt = self.optimize(tree)
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
-            if rslt.value > 0:
+            if self.optimizer.isCondTrue(rslt):
                 label = self._if_true(node)
             else:
                 label = self.labels.get(self.frames.getLabelKey('if'))
@@ -297,7 +297,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError(("Can not process the for-statement. "
                                           "for-condition should be evaluated statically."))
             # loop termination
-            if rslt.value <= 0:
+            if not self.optimizer.isCondTrue(rslt):
                 break
 
             # main-statement
-- 
2.43.0


From b95d8764e4ebf94842a8ba664e4a7a9cc41481fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:31 +0000
Subject: [PATCH 84/92] fix: clocks and resets that are bits of a vector, at
 any constant index, and in the code of definitions

---
 pyverilog/dataflow/bindvisitor.py | 5 ++++-
 pyverilog/dataflow/dataflow.py    | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 421fd6c..801524a 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -274,7 +274,10 @@ class BindVisitor(NodeVisitor):
 
             if isinstance(l.sig, pyverilog.vparser.ast.Pointer):
                 signame = self._get_signal_name(l.sig.var)
-                bit = int(l.sig.ptr.value)
+                ptr = self.optimize(self.getTree(l.sig.ptr, scope))
+                if not isinstance(ptr, DFEvalValue):
+                    raise verror.FormatError('Can not resolve the bit of a sensitivity list')
+                bit = ptr.value
             else:
                 signame = self._get_signal_name(l.sig)
                 bit = 0
diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index bc5e8af..d64002d 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -874,10 +874,14 @@ class Bind(object):
         if self.alwaysinfo.clock_edge is not None and self.alwaysinfo.clock_name is not None:
             code += self.alwaysinfo.clock_edge + ' '
             code += util.toFlatname(self.alwaysinfo.clock_name)
+            if self.alwaysinfo.clock_bit:
+                code += '[' + str(self.alwaysinfo.clock_bit) + ']'
         if self.alwaysinfo.reset_edge is not None and self.alwaysinfo.reset_name is not None:
             code += ' or '
             code += self.alwaysinfo.reset_edge + ' '
             code += util.toFlatname(self.alwaysinfo.reset_name)
+            if self.alwaysinfo.reset_bit:
+                code += '[' + str(self.alwaysinfo.reset_bit) + ']'
         code += ') begin\n'
         if isinstance(self.tree, DFBranch):
             code += self.tree.tocode(dest, always='clockedge')
-- 
2.43.0


From f6fe76b03e997de0be5a8703d823a55f12926573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:31 +0000
Subject: [PATCH 85/92] fix: indices of destinations have the value of their
 variables there, not the last constant assigned anywhere

---
 pyverilog/dataflow/bindvisitor.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 801524a..6b916cd 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -972,12 +972,6 @@ class BindVisitor(NodeVisitor):
             if signaltype.isGenvar(self.getTermtype(name)):
                 value = self.optimize(raw_tree)
                 self.setConstant(name, value)
-            else:  # for "for-statement"
-                value = self.optimize(raw_tree)
-                if isinstance(value, DFEvalValue):
-                    self.setConstant(name, value)
-                else:
-                    self.resetConstant(name)
 
     def getCondflow(self, scope):
         condlist = self.getCondlist(scope)
@@ -1359,6 +1353,10 @@ class BindVisitor(NodeVisitor):
         ret = (self.getDst(left, scope),)
         return ret
 
+    def getIndex(self, node, scope):
+        """ an index of a destination: the value its variables have there """
+        return self.optimize(self.resolveBlockingAssign(self.makeDFTree(node, scope), scope))
+
     def getDst(self, left, scope):
         if isinstance(left, str):  # Parameter
             name = self.searchTerminal(left, scope)
@@ -1385,23 +1383,23 @@ class BindVisitor(NodeVisitor):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.msb, scope))
-                    lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+                    msb = self.getIndex(left.msb, scope)
+                    lsb = self.getIndex(left.lsb, scope)
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
                 return (name, msb, lsb, ptr)
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            msb = self.optimize(self.makeDFTree(left.msb, scope))
-            lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+            msb = self.getIndex(left.msb, scope)
+            lsb = self.getIndex(left.lsb, scope)
             return (name, msb, lsb, None)
 
         if isinstance(left, Pointer):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.ptr, scope))
+                    msb = self.getIndex(left.ptr, scope)
                     lsb = copy.deepcopy(msb)
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
@@ -1409,7 +1407,7 @@ class BindVisitor(NodeVisitor):
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            ptr = self.optimize(self.makeDFTree(left.ptr, scope))
+            ptr = self.getIndex(left.ptr, scope)
             if self.getTermDims(name) is not None:
                 return (name, None, None, ptr)
             return (name, ptr, copy.deepcopy(ptr), None)
-- 
2.43.0


From 43085c860eb015ca5df7cb4a24535228feb9d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:31 +0000
Subject: [PATCH 86/92] fix: integers hold their own value in walked trees

---
 pyverilog/dataflow/walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index f60e726..b81be36 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -81,7 +81,7 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                     nextvisited = set()
 
             nexttree = self.getTree(termname, nptr)
-            if signaltype.isReg(termtype) and not signaltype.isRename(termtype):
+            if (signaltype.isReg(termtype) or signaltype.isInteger(termtype)) and not signaltype.isRename(termtype):
                 nexttree = replace.replaceUndefined(nexttree, termname)
             return self.walkTree(nexttree, nextvisited, nextstep, delay)
 
-- 
2.43.0


From b24fc4682358ce84e011d84223df1cbd528d8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:42 +0000
Subject: [PATCH 87/92] fix: calls of $signed and $unsigned in declarations

---
 pyverilog/dataflow/signalvisitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index f2397ef..ebe3d99 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -557,9 +557,9 @@ class SignalVisitor(NodeVisitor):
 
         if isinstance(node, SystemCall):
             if node.syscall == 'unsigned':
-                return self.makeDFTree(node.args[0])
+                return self.makeDFTree(node.args[0], scope)
             if node.syscall == 'signed':
-                return self.makeDFTree(node.args[0])
+                return self.makeDFTree(node.args[0], scope)
             return DFIntConst('0')
 
         raise verror.FormatError("unsupported AST node type: %s %s" %
-- 
2.43.0


From d60cb7bb9cfcaac0e21b06b9ee02d531e0e5e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:24 +0000
Subject: [PATCH 88/92] fix: $clog2 of constants

---
 pyverilog/dataflow/bindvisitor.py   | 2 ++
 pyverilog/dataflow/optimizer.py     | 6 +++++-
 pyverilog/dataflow/signalvisitor.py | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 6b916cd..d0762b9 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1176,6 +1176,8 @@ class BindVisitor(NodeVisitor):
                 return self.makeDFTree(node.args[0], scope)
             if node.syscall == 'signed':
                 return self.makeDFTree(node.args[0], scope)
+            if node.syscall == 'clog2':
+                return self.optimize(DFSyscall(node.syscall, (self.makeDFTree(node.args[0], scope),)))
             return DFIntConst('0')
 
         raise verror.FormatError("unsupported AST node type: %s %s" %
diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index ed60b2c..5783a1d 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -154,7 +154,11 @@ class VerilogOptimizer(object):
             return self.makePointer(tree.var, var, ptr)
 
         if isinstance(tree, DFSyscall):
-            return DFSyscall(tree.syscall, tuple([self.optimizeConstant(n) for n in tree.nextnodes]))
+            nextnodes_rslts, all_const = self.evalNextnodes(tree.nextnodes)
+            if tree.syscall == 'clog2' and all_const:
+                value = self._wrap(nextnodes_rslts[0].value, self.getWidth(nextnodes_rslts[0]))
+                return DFEvalValue(max(value - 1, 0).bit_length())
+            return DFSyscall(tree.syscall, nextnodes_rslts)
 
         raise verror.DefinitionError('Can not optimize the tree: %s %s' %
                                      (str(type(tree)), str(tree)))
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index ebe3d99..ad2deff 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -560,6 +560,8 @@ class SignalVisitor(NodeVisitor):
                 return self.makeDFTree(node.args[0], scope)
             if node.syscall == 'signed':
                 return self.makeDFTree(node.args[0], scope)
+            if node.syscall == 'clog2':
+                return self.optimize(DFSyscall(node.syscall, (self.makeDFTree(node.args[0], scope),)))
             return DFIntConst('0')
 
         raise verror.FormatError("unsupported AST node type: %s %s" %
-- 
2.43.0


From c23eaf878b51c4aa8d9e686bac1ebeab7e078235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:16 +0000
Subject: [PATCH 89/92] fix: definition records with equal event controls are
 equal, and report their sensitivity list

---
 pyverilog/dataflow/visit.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 8fbde17..c0ea36d 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -80,6 +80,21 @@ class AlwaysInfo(object):
         self.reset_bit = reset_bit
         self.senslist = senslist
 
+    def __eq__(self, other):
+        if type(self) != type(other):
+            return False
+        return self._fields() == other._fields()
+
+    def __ne__(self, other):
+        return not self.__eq__(other)
+
+    def __hash__(self):
+        return hash(self._fields())
+
+    def _fields(self):
+        return (self.clock_name, self.clock_edge, self.clock_bit,
+                self.reset_name, self.reset_edge, self.reset_bit, tuple(self.senslist))
+
     def getClockName(self):
         return self.clock_name
 
@@ -98,6 +113,9 @@ class AlwaysInfo(object):
     def getResetBit(self):
         return self.reset_bit
 
+    def getSenslist(self):
+        return self.senslist
+
     def isClockEdge(self):
         if self.clock_name != '' and self.clock_edge == 'posedge':
             return True
-- 
2.43.0


From 5c06f97dddcc6184b830b728ddb2c4e06eadbe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:56 +0000
Subject: [PATCH 90/92] fix: variable indices of expanded signals are evaluated
 at their own width

---
 pyverilog/dataflow/merge.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 685ec6e..6c3f9d0 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -289,9 +289,16 @@ class VerilogDataflowMerge(object):
         msb, lsb = self.optimizer.getRange(var.name)
         if msb is None or (lsb == 0 and msb >= lsb):
             return index
+        base = DFEvalValue(lsb)
+        if isinstance(index, (DFOperator, DFBranch)) and self.optimizer.hasWidth(index):
+            # the index is a value of its own width
+            width = self.optimizer.getWidth(index)
+            pad = max(max(msb, lsb).bit_length() - width, 1)
+            index = DFConcat((DFEvalValue(0, pad), index))
+            base = DFEvalValue(lsb, width + pad)
         if msb < lsb:
-            return DFOperator((DFEvalValue(lsb), index), 'Minus')
-        return DFOperator((index, DFEvalValue(lsb)), 'Minus')
+            return DFOperator((base, index), 'Minus')
+        return DFOperator((index, base), 'Minus')
 
     def selectTree(self, tree, msb, lsb):
         # bits of the value of the tree, counted from its least significant bit
-- 
2.43.0


From 9546c878d6228f5ebdca0b35c1e332e0f5819378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:10 +0000
Subject: [PATCH 91/92] fix: names given as a list of parts find signals of
 generate loops

---
 pyverilog/utils/util.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pyverilog/utils/util.py b/pyverilog/utils/util.py
index 4f01a56..bb01483 100644
--- a/pyverilog/utils/util.py
+++ b/pyverilog/utils/util.py
@@ -27,16 +27,8 @@ def toTermname(name):
 
 
 def toTermname_str(name):
-    scopechain_list = []
-    for n in name.split('.'):
-        # fix me: to support "module.scope.signal[ptr]", lexical analyzer is required.
-        # the iteration of a generate loop is written "loop[n]"
-        m = re.match(r'(.*)\[(-?[0-9]+)\]$', n)
-        if m:
-            scopechain_list.append(ScopeLabel(m.group(1), 'any', int(m.group(2))))
-        else:
-            scopechain_list.append(ScopeLabel(n, 'any'))
-    return ScopeChain(scopechain_list)
+    # fix me: to support "module.scope.signal[ptr]", lexical analyzer is required.
+    return toTermname_list(name.split('.'))
 
 
 def toTermname_list(name):
@@ -44,7 +36,12 @@ def toTermname_list(name):
     for n in name:
         if not isinstance(n, str):
             raise TypeError()
-        scopechain_list.append(ScopeLabel(n, 'any'))
+        # the iteration of a generate loop is written "loop[n]"
+        m = re.match(r'(.*)\[(-?[0-9]+)\]$', n)
+        if m:
+            scopechain_list.append(ScopeLabel(m.group(1), 'any', int(m.group(2))))
+        else:
+            scopechain_list.append(ScopeLabel(n, 'any'))
     return ScopeChain(scopechain_list)
 
 
-- 
2.43.0


From bd3aa62fefd6b663c7d6551c0e72692cde2dc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:16 +0000
Subject: [PATCH 92/92] fix: a comma in front of the first argument is not
 dropped (an ordered port may be left unconnected)

---
 pyverilog/dataflow/bindvisitor.py |  2 ++
 pyverilog/vparser/parser.py       | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index d0762b9..be1d7e4 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -203,6 +203,8 @@ class BindVisitor(NodeVisitor):
     def _visit_Instance_primitive(self, node, arrayindex=None):
         primitive_type = primitives[node.module]
         args = [p.argname for p in node.portlist]
+        if None in args:
+            raise verror.FormatError("Primitive %s requires all of its terminals" % node.module)
         # all the terminals of buf and not but the last one are outputs
         num_outputs = len(args) - 1 if primitive_type in (None, Unot) else 1
         inputs = [self.selectGateBit(arg, arrayindex) for arg in args[num_outputs:]]
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 75a8f5a..bd88e87 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1906,6 +1906,8 @@ class VerilogParser(object):
 
     def p_param_args(self, p):
         'param_args : param_args COMMA param_arg'
+        if len(p[1]) == 0:
+            self._raise_error_at(p[2], p.lineno(2))
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
@@ -1937,9 +1939,20 @@ class VerilogParser(object):
 
     def p_instance_ports_list(self, p):
         'instance_ports_list : instance_ports_list COMMA instance_port_list'
-        p[0] = p[1] + (p[3],)
+        p[0] = self._leading_ports(p[1], p.lineno(2)) + (p[3],)
+        p.set_lineno(0, p.lineno(1))
+
+    def p_instance_ports_list_blank(self, p):
+        'instance_ports_list : instance_ports_list COMMA'
+        p[0] = self._leading_ports(p[1], p.lineno(2)) + (PortArg(None, None, lineno=p.lineno(2)),)
         p.set_lineno(0, p.lineno(1))
 
+    def _leading_ports(self, ports, lineno):
+        # nothing in front of the first comma: the first port is not connected
+        if len(ports) == 0:
+            return (PortArg(None, None, lineno=lineno),)
+        return ports
+
     def p_instance_ports_list_one(self, p):
         'instance_ports_list : instance_port_list'
         p[0] = (p[1],)
@@ -2100,6 +2113,8 @@ class VerilogParser(object):
 
     def p_sysargs(self, p):
         'sysargs : sysargs COMMA sysarg'
+        if len(p[1]) == 0:
+            self._raise_error_at(p[2], p.lineno(2))
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
@@ -2192,6 +2207,8 @@ class VerilogParser(object):
 
     def p_func_args(self, p):
         'func_args : func_args COMMA expression'
+        if len(p[1]) == 0:
+            self._raise_error_at(p[2], p.lineno(2))
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
-- 
2.43.0

