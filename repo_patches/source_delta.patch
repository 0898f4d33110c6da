From 5270b4ccadad71535fbccdf32ed64d4d4da3317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 01/79] fix: keep the declared width of signed sized literals
 given as strings

Int("4'sb1010") lost its width because the width pattern did not allow the
's' between the quote and the base letter, so it was emitted as 'sb1010
(32 bits, not negative).
---
 veriloggen/core/vtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 490d63b..3d27e75 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -106,16 +106,16 @@ def str_to_value(s):
 
 def str_to_width(s):
     targ = s.replace('_', '')
-    match = re.search(r'(.+)\'h.+', targ)
+    match = re.search(r'(.+)\'s?h.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'d.+', targ)
+    match = re.search(r'(.+)\'s?d.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'o.+', targ)
+    match = re.search(r'(.+)\'s?o.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'b.+', targ)
+    match = re.search(r'(.+)\'s?b.+', targ)
     if match is not None:
         return int(match.group(1), 10)
     return None
-- 
2.43.0


From 2d7f39644b249b817d21d92dc732418f135ba005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 02/79] fix: compute the width of Cat and Repeat with 1-bit
 operands

---
 veriloggen/core/vtypes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 3d27e75..b851328 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -1752,7 +1752,8 @@ class Cat(_SpecialOperator):
         return self
 
     def get_width(self):
-        values = [get_width(v) for v in self.vars]
+        values = [1 if get_width(v) is None else get_width(v)
+                  for v in self.vars]
         ret = values[0]
         for v in values[1:]:
             ret = ret + v
@@ -1814,7 +1815,10 @@ class Repeat(_SpecialOperator):
         self.times = times
 
     def get_width(self):
-        return get_width(self.var) * self.times
+        width = get_width(self.var)
+        if width is None:
+            width = 1
+        return width * self.times
 
     def __str__(self):
         return ''.join(['{', str(self.times), '{', str(self.var), '}}'])
-- 
2.43.0


From 744f0acac344995fd70a644d3358aecc639c2cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 03/79] fix: attach Else/Elif arms of Seq and FSM statements to
 the right conditions

---
 veriloggen/fsm/fsm.py | 15 +++++++++++++--
 veriloggen/seq/seq.py | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index f7617e3..fc69b8a 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -78,6 +78,7 @@ class FSM(vtypes.VeriloggenNode):
         self.next_else = False
         self.elif_cond = None
         self.next_kwargs = {}
+        self.separated = False
 
         self.as_module = as_module
 
@@ -176,6 +177,8 @@ class FSM(vtypes.VeriloggenNode):
         self.last_kwargs = kwargs
         self._clear_next_kwargs()
 
+        self.separated = False
+
         # if there is no attributes, Elif object is reused.
         has_args = not (len(kwargs) == 0 or  # has no args
                         (len(kwargs) == 1 and 'cond' in kwargs) or  # has only 'cond'
@@ -199,7 +202,12 @@ class FSM(vtypes.VeriloggenNode):
             self._clear_elif_cond()
             return self
 
+        # an Elif statement with its own if-statement has the whole condition,
+        # so that the following Elif/Else must be separated from it.
+        self.separated = len(self.last_cond) > 1 and 'cond' in kwargs
+
         self._clear_last_if_statement()
+        self._clear_elif_cond()
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
@@ -219,6 +227,9 @@ class FSM(vtypes.VeriloggenNode):
         if cond is None:
             return self
 
+        # a new condition makes the pending Else a separated statement
+        self.next_else = False
+
         if 'cond' not in self.next_kwargs:
             self.next_kwargs['cond'] = cond
         else:
@@ -241,7 +252,7 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if self.last_delay > 0 or self.separated:
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
@@ -272,7 +283,7 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if self.last_delay > 0 or self.separated:
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index ef84fbb..ae588b3 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -93,6 +93,7 @@ class Seq(vtypes.VeriloggenNode):
         self.next_else = False
         self.elif_cond = None
         self.next_kwargs = {}
+        self.separated = False
 
         self.as_module = as_module
 
@@ -106,6 +107,8 @@ class Seq(vtypes.VeriloggenNode):
         self.last_kwargs = kwargs
         self._clear_next_kwargs()
 
+        self.separated = False
+
         # if there is no attributes, Elif object is reused.
         has_args = not (len(kwargs) == 0 or  # has no args
                         (len(kwargs) == 1 and 'cond' in kwargs))  # has only 'cond'
@@ -126,7 +129,12 @@ class Seq(vtypes.VeriloggenNode):
             self._clear_elif_cond()
             return self
 
+        # an Elif statement with its own if-statement has the whole condition,
+        # so that the following Elif/Else must be separated from it.
+        self.separated = len(self.last_cond) > 1 and 'cond' in kwargs
+
         self._clear_last_if_statement()
+        self._clear_elif_cond()
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
@@ -201,6 +209,9 @@ class Seq(vtypes.VeriloggenNode):
         if cond is None:
             return self
 
+        # a new condition makes the pending Else a separated statement
+        self.next_else = False
+
         if 'cond' not in self.next_kwargs:
             self.next_kwargs['cond'] = cond
         else:
@@ -223,7 +234,7 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if self.last_delay > 0 or self.separated:
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
@@ -251,7 +262,7 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if self.last_delay > 0 or self.separated:
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
-- 
2.43.0


From 04751bf001136e3817eb4d549841ba6791914bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 04/79] fix: do not reuse an unconditional Prev register for a
 conditional Prev

---
 veriloggen/seq/seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index ae588b3..b726794 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -176,12 +176,12 @@ class Seq(vtypes.VeriloggenNode):
             name_prefix = _tmp_name(prefix)
 
         key = '_'.join([name_prefix, str(delay)])
-        if key in self.prev_dict:
+        cond = make_condition(cond)
+        if cond is None and key in self.prev_dict:
             return self.prev_dict[key]
 
         p = var
         for i in range(delay):
-            cond = make_condition(cond)
             if cond is not None:
                 tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
                 self._add_statement([tmp(p)], cond=cond)
-- 
2.43.0


From 664d2ae8fa0517cde25a2bfc3044f44f35a690dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 05/79] fix: as_module Seq/FSM with casex, default When,
 blocking assigns and multi-dimensional sources

---
 veriloggen/fsm/fsm.py           |  8 ++++----
 veriloggen/seq/seq.py           |  8 ++++----
 veriloggen/seq/subst_visitor.py | 20 ++++++++++++++------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index fc69b8a..321e780 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -551,7 +551,7 @@ class FSM(vtypes.VeriloggenNode):
                 s = src
                 a = None
                 for d, dim in enumerate(dims):
-                    i = g.TmpGenvar(prefix='i')
+                    i = self.m.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < dim, i(i + 1))
                     s = vtypes.Pointer(s, i)
                     b = None
@@ -588,14 +588,14 @@ class FSM(vtypes.VeriloggenNode):
                               vtypes.Mul(rep_length, rep_width))
                 in_line = m.Input(arg_name + '_line', pack_width,
                                   signed=src.get_signed())
-                in_array = m.Wire(arg_name, rep_width, rep_length,
+                in_array = m.Wire(arg_name, rep_width, rep_dims,
                                   signed=src.get_signed())
 
                 g = m
                 ia = in_array
                 a = None
-                for rep_dim in rep_dims:
-                    i = g.TmpGenvar(prefix='i')
+                for d, rep_dim in enumerate(rep_dims):
+                    i = m.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < rep_dim, i(i + 1))
                     ia = vtypes.Pointer(ia, i)
                     b = None
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index b726794..84f6617 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -489,7 +489,7 @@ class Seq(vtypes.VeriloggenNode):
                 s = src
                 a = None
                 for d, dim in enumerate(dims):
-                    i = g.TmpGenvar(prefix='i')
+                    i = self.m.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < dim, i(i + 1))
                     s = vtypes.Pointer(s, i)
                     b = None
@@ -526,14 +526,14 @@ class Seq(vtypes.VeriloggenNode):
                               vtypes.Mul(rep_length, rep_width))
                 in_line = m.Input(arg_name + '_line', pack_width,
                                   signed=src.get_signed())
-                in_array = m.Wire(arg_name, rep_width, rep_length,
+                in_array = m.Wire(arg_name, rep_width, rep_dims,
                                   signed=src.get_signed())
 
                 g = m
                 ia = in_array
                 a = None
-                for rep_dim in rep_dims:
-                    i = g.TmpGenvar(prefix='i')
+                for d, rep_dim in enumerate(rep_dims):
+                    i = m.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < rep_dim, i(i + 1))
                     ia = vtypes.Pointer(ia, i)
                     b = None
diff --git a/veriloggen/seq/subst_visitor.py b/veriloggen/seq/subst_visitor.py
index 6b2ade3..d3605b3 100644
--- a/veriloggen/seq/subst_visitor.py
+++ b/veriloggen/seq/subst_visitor.py
@@ -50,7 +50,7 @@ class SubstDstVisitor(object):
         return statement
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         statement = self.visit(node.statement)
@@ -117,7 +117,7 @@ class SubstSrcVisitor(CollectVisitor):
         self.visit(node.statement)
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         self.visit(node.condition)
@@ -186,10 +186,16 @@ class SrcRenameVisitor(RenameVisitor):
         return ret
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        comp = self.visit(node.comp)
+        statement = self.visit(node.statement)
+        ret = vtypes.Casex(comp)
+        ret.statement = statement
+        ret.last = node.last
+        return ret
 
     def visit_When(self, node):
-        condition = self.visit(node.condition)
+        condition = (self.visit(node.condition)
+                     if node.condition is not None else ())
         statement = self.visit(node.statement)
         ret = vtypes.When(*condition)
         ret.statement = statement
@@ -218,7 +224,8 @@ class SrcRenameVisitor(RenameVisitor):
     def visit_Subst(self, node):
         left = node.left
         right = self.visit(node.right)
-        return vtypes.Subst(left, right)
+        return vtypes.Subst(left, right, blk=node.blk,
+                            ldelay=node.ldelay, rdelay=node.rdelay)
 
     def visit_SingleStatement(self, node):
         statement = self.visit(node.statement)
@@ -233,4 +240,5 @@ class DstRenameVisitor(SrcRenameVisitor):
     def visit_Subst(self, node):
         left = self.visit(node.left)
         right = node.right
-        return vtypes.Subst(left, right)
+        return vtypes.Subst(left, right, blk=node.blk,
+                            ldelay=node.ldelay, rdelay=node.rdelay)
-- 
2.43.0


From 445f50a3507bd68ff64a7b48adfd3ad01d742553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 06/79] fix: keep Else/Elif after FSM transitions apart from
 older statements and delay conditions in the given state

---
 veriloggen/fsm/fsm.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 321e780..7a5db25 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -96,9 +96,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_next_else()
 
         if index is None:
             src = self.current
@@ -118,9 +116,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_next_else()
 
         if index is None:
             src = self.current
@@ -141,9 +137,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_next_else()
 
         if index is None:
             src = self.current
@@ -160,9 +154,7 @@ class FSM(vtypes.VeriloggenNode):
             cond = self.next_kwargs['cond']
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_next_else()
 
         self._go(src, dst, cond, else_dst)
         return dst
@@ -227,8 +219,9 @@ class FSM(vtypes.VeriloggenNode):
         if cond is None:
             return self
 
-        # a new condition makes the pending Else a separated statement
-        self.next_else = False
+        # a new condition is independent of the last if-statement
+        self._clear_last_if_statement()
+        self.separated = False
 
         if 'cond' not in self.next_kwargs:
             self.next_kwargs['cond'] = cond
@@ -304,8 +297,13 @@ class FSM(vtypes.VeriloggenNode):
 
     def Then(self):
         cond = self._make_cond(self.last_cond)
+        last_if_statement = (self.last_if_statement
+                             if len(self.last_cond) == 1 else None)
+        separated = self.separated
         self._clear_last_cond()
         self.If(cond)
+        self.last_if_statement = last_if_statement
+        self.separated = separated
         return self
 
     def Delay(self, delay):
@@ -330,7 +328,7 @@ class FSM(vtypes.VeriloggenNode):
 
     def State(self, index=None):
         if index is None:
-            index = fsm.current
+            index = self.current
         return State(self, index)
 
     def Clear(self):
@@ -848,7 +846,7 @@ class FSM(vtypes.VeriloggenNode):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
             self.delayed_cond[tmp_name] = tmp
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return prev
 
@@ -873,7 +871,7 @@ class FSM(vtypes.VeriloggenNode):
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return left(prev)
 
@@ -885,6 +883,14 @@ class FSM(vtypes.VeriloggenNode):
         self.last_if_statement = None
         self.next_else = False
 
+    def _clear_next_else(self):
+        # a transition consumed the pending Elif/Else condition, so that
+        # the following Elif/Else must be separated from the last if-statement.
+        if self.next_else or self.elif_cond is not None:
+            self.separated = True
+        self.next_else = False
+        self._clear_elif_cond()
+
     def _clear_last_cond(self):
         self.last_cond = []
 
-- 
2.43.0


From 7bd4aa98877a74ce7a00656e168f8c26642924c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 07/79] fix: keep the order of external_write and external_read
 in FixedFIFO

---
 veriloggen/thread/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/fifo.py b/veriloggen/thread/fifo.py
index 1bfa4f2..472346d 100644
--- a/veriloggen/thread/fifo.py
+++ b/veriloggen/thread/fifo.py
@@ -283,7 +283,7 @@ class FixedFIFO(FIFO):
 
         FIFO.__init__(self, m, name, clk, rst,
                       datawidth, addrwidth, sync,
-                      external_read, external_write,
+                      external_write, external_read,
                       itype, otype,
                       ext_itype, ext_otype)
 
-- 
2.43.0


From 23344058a0fcffc748934b9dc95557dd30d470ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 08/79] fix: give the previous-value register of a second Seq a
 fresh name

---
 veriloggen/seq/seq.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 84f6617..74adc18 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -192,8 +192,13 @@ class Seq(vtypes.VeriloggenNode):
                 if tmp_name in self.prev_dict:
                     p = self.prev_dict[tmp_name]
                     continue
-                tmp = self.m.Reg(
-                    tmp_name, width, initval=initval, signed=signed)
+                if self.m.find_identifier(tmp_name) is None:
+                    tmp = self.m.Reg(
+                        tmp_name, width, initval=initval, signed=signed)
+                else:
+                    # already used, for instance by another Seq of the module
+                    tmp = self.m.TmpReg(
+                        width, initval=initval, signed=signed)
                 self.prev_dict[tmp_name] = tmp
                 self._add_statement([tmp(p)])
                 p = tmp
-- 
2.43.0


From 7d05c3054bf3acd3fa9338f5cf98e15589126098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 09/79] fix: pass itype/otype/with_enable through SyncRAM and
 AsyncRAM

---
 veriloggen/types/ram.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/ram.py b/veriloggen/types/ram.py
index dc0c534..bafc0b2 100644
--- a/veriloggen/types/ram.py
+++ b/veriloggen/types/ram.py
@@ -213,7 +213,8 @@ class SyncRAM(_RAM_RTL):
 
         _RAM_RTL.__init__(self, m, name, clk,
                           datawidth, addrwidth, numports,
-                          initvals, sync=True, with_enable=with_enable)
+                          initvals, sync=True, with_enable=with_enable,
+                          itype=itype, otype=otype)
 
 
 class AsyncRAM(_RAM_RTL):
@@ -225,4 +226,5 @@ class AsyncRAM(_RAM_RTL):
 
         _RAM_RTL.__init__(self, m, name, clk,
                           datawidth, addrwidth, numports,
-                          initvals, sync=False)
+                          initvals, sync=False, with_enable=with_enable,
+                          itype=itype, otype=otype)
-- 
2.43.0


From 904ed3f86ec01af08035cf1599bed1c27666bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 10/79] fix: ready and done of MultibankRAM write_burst_block
 and write_burst_bcast

---
 veriloggen/thread/ram.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index feafe52..a098bb1 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -824,10 +824,10 @@ class MultibankRAM(RAM):
             fsm.If(wvalid, wlast).goto_init()
             fsm.If(wquit).goto_init()
 
-            fsm.inc()
-
             wready = vtypes.Ors(wready, fsm.here)
 
+            fsm.inc()
+
         return wready, done
 
     def write_burst_packed(self, addr, stride, packed_length, blocksize,
@@ -898,7 +898,7 @@ class MultibankRAM(RAM):
                                            wdata, wvalid, wlast, wquit,
                                            port, cond)
             wready_list.append(wready)
-            done_list.append(done_list)
+            done_list.append(done)
 
         return wready_list[0], done_list[0]
 
-- 
2.43.0


From 66932e926b8bcc247744e8a23c128cf32839fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 11/79] fix: thread loops follow Python (jumps of outer loops,
 calls in while conditions, range arguments and direction, else clauses,
 constant chained comparisons)

---
 veriloggen/thread/compiler.py | 138 ++++++++++++++++++++++++++--------
 1 file changed, 105 insertions(+), 33 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 5bdd1b2..28e4614 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -258,14 +258,17 @@ class CompileVisitor(ast.NodeVisitor):
         if self.skip():
             return
 
-        # loop condition
+        begin_count = self.getFsmCount()
+
+        # loop condition, function calls in it are evaluated in every iteration
         test = self.visit(node.test)
 
-        begin_count = self.getFsmCount()
+        check_count = self.getFsmCount()
         self.incFsmCount()
         body_begin_count = self.getFsmCount()
 
         self.pushScope()
+        loop_scope = self.getCurrentScope()
 
         for b in node.body:
             self.visit(b)
@@ -276,22 +279,37 @@ class CompileVisitor(ast.NodeVisitor):
         self.incFsmCount()
         loop_exit_count = self.getFsmCount()
 
-        self.setFsm(begin_count, body_begin_count, test, loop_exit_count)
+        self.setFsm(check_count, body_begin_count, test, loop_exit_count)
         self.setFsm(body_end_count, begin_count)
 
-        unresolved_break = self.getUnresolvedBreak()
-        for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
+        # only the jumps in this loop, not the ones of the outer loops
+        unresolved_break = self.getUnresolvedBreak(loop_scope)
 
-        unresolved_continue = self.getUnresolvedContinue()
+        unresolved_continue = self.getUnresolvedContinue(loop_scope)
         for c in unresolved_continue:
             self.setFsm(c, begin_count)
 
-        self.clearBreak()
-        self.clearContinue()
+        self.clearBreak(loop_scope)
+        self.clearContinue(loop_scope)
 
         self.setFsmLoop(begin_count, body_end_count)
 
+        self._loop_else(node.orelse, unresolved_break)
+
+    def _loop_else(self, orelse, unresolved_break):
+        """ else clause of a loop: skipped when the loop is left by break """
+        if orelse:
+            self.pushScope()
+
+            for b in orelse:
+                self.visit(b)
+
+            self.popScope()
+
+        break_count = self.getFsmCount()
+        for b in unresolved_break:
+            self.setFsm(b, break_count)
+
     def visit_For(self, node):
         if self.skip():
             return
@@ -327,19 +345,74 @@ class CompileVisitor(ast.NodeVisitor):
 
         iter_name = self.visit(node.target)
         iter_node = self.getVariable(iter_name, store=True)
-        cond_node = vtypes.LessThan(iter_node, end_node)
-        update_node = vtypes.Plus(iter_node, step_node)
+        target_update = None
 
-        node_body = node.body
+        # range arguments are evaluated only once, before the loop
+        stored_names = self._get_stored_names(node.body)
+
+        if len(node.iter.args) == 1:
+            end_ast, step_ast = node.iter.args[0], None
+        else:
+            end_ast = node.iter.args[1]
+            step_ast = node.iter.args[2] if len(node.iter.args) > 2 else None
+
+        if self._is_affected(end_ast, stored_names | set([iter_name])):
+            end_node = self._copy_value(end_node)
+        if step_ast is not None and self._is_affected(step_ast, stored_names | set([iter_name])):
+            step_node = self._copy_value(step_node)
+
+        # assignments to the loop variable do not change the iterations
+        if iter_name in stored_names:
+            target_update = (iter_node, self.getTmpVariable())
+            iter_node = target_update[1]
+
+        cond_node = self._for_range_cond(iter_node, end_node, step_node)
+        update_node = vtypes.Plus(iter_node, step_node)
 
         return self._for_range_fsm(begin_node, end_node, step_node,
-                                   iter_node, cond_node, update_node, node_body)
+                                   iter_node, cond_node, update_node,
+                                   node.body, node.orelse, target_update)
+
+    def _get_stored_names(self, body):
+        """ names of variables and objects assigned in statements """
+        names = set()
+        for b in body:
+            for n in ast.walk(b):
+                if isinstance(getattr(n, 'ctx', None), ast.Store):
+                    while isinstance(n, (ast.Attribute, ast.Subscript)):
+                        n = n.value
+                    if isinstance(n, ast.Name):
+                        names.add(n.id)
+        return names
+
+    def _is_affected(self, node, names):
+        return any(isinstance(n, ast.Name) and n.id in names
+                   for n in ast.walk(node))
+
+    def _copy_value(self, value):
+        var = self.getTmpVariable()
+        self.setBind(var, value)
+        return var
+
+    def _for_range_cond(self, iter_node, end_node, step_node):
+        step_value = vtypes.raw_value(optimize(step_node))
+
+        if isinstance(step_value, int):
+            if step_value < 0:
+                return vtypes.GreaterThan(iter_node, end_node)
+            return vtypes.LessThan(iter_node, end_node)
+
+        # the direction is determined at runtime
+        return vtypes.Mux(vtypes.LessThan(step_node, 0),
+                          vtypes.GreaterThan(iter_node, end_node),
+                          vtypes.LessThan(iter_node, end_node))
 
     def _for_range_fsm(self, begin_node, end_node, step_node,
                        iter_node, cond_node, update_node, node_body,
-                       target_update=None):
+                       node_orelse=(), target_update=None):
 
         self.pushScope()
+        loop_scope = self.getCurrentScope()
 
         # initialize
         self.setBind(iter_node, begin_node)
@@ -375,19 +448,20 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(check_count, body_begin_count,
                     cond_node, loop_exit_count)
 
-        unresolved_break = self.getUnresolvedBreak()
-        for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
+        # only the jumps in this loop, not the ones of the outer loops
+        unresolved_break = self.getUnresolvedBreak(loop_scope)
 
-        unresolved_continue = self.getUnresolvedContinue()
+        unresolved_continue = self.getUnresolvedContinue(loop_scope)
         for c in unresolved_continue:
             self.setFsm(c, body_end_count)
 
-        self.clearBreak()
-        self.clearContinue()
+        self.clearBreak(loop_scope)
+        self.clearContinue(loop_scope)
 
         self.setFsmLoop(check_count, body_end_count, iter_node, step_node)
 
+        self._loop_else(node_orelse, unresolved_break)
+
     def _for_list(self, node):
         target_name = self.visit(node.target)
         target = self.getVariable(target_name, store=True)
@@ -401,8 +475,6 @@ class CompileVisitor(ast.NodeVisitor):
         cond_node = vtypes.LessThan(iter_node, end_node)
         update_node = vtypes.Plus(iter_node, step_node)
 
-        node_body = node.body
-
         patterns = []
         for i, obj in enumerate(iterobj):
             if not isinstance(obj, numerical_types):
@@ -413,8 +485,8 @@ class CompileVisitor(ast.NodeVisitor):
         target_update = (target, vtypes.PatternMux(*patterns))
 
         return self._for_range_fsm(begin_node, end_node, step_node,
-                                   iter_node, cond_node, update_node, node_body,
-                                   target_update)
+                                   iter_node, cond_node, update_node,
+                                   node.body, node.orelse, target_update)
 
     # --------------------------------------------------------------------------
     def visit_Call(self, node):
@@ -967,7 +1039,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         ret = None
         for r in rslts:
-            if ret:
+            if ret is not None:
                 ret = vtypes.Land(ret, r)
             else:
                 ret = r
@@ -1310,11 +1382,11 @@ class CompileVisitor(ast.NodeVisitor):
     def hasReturn(self):
         return self.scope.hasReturn()
 
-    def getUnresolvedBreak(self):
-        return self.scope.getUnresolvedBreak()
+    def getUnresolvedBreak(self, scope=None):
+        return self.scope.getUnresolvedBreak(scope)
 
-    def getUnresolvedContinue(self):
-        return self.scope.getUnresolvedContinue()
+    def getUnresolvedContinue(self, scope=None):
+        return self.scope.getUnresolvedContinue(scope)
 
     def getUnresolvedReturn(self):
         return self.scope.getUnresolvedReturn()
@@ -1325,11 +1397,11 @@ class CompileVisitor(ast.NodeVisitor):
     def getReturnVariable(self):
         return self.scope.getReturnVariable()
 
-    def clearBreak(self):
-        self.scope.clearBreak()
+    def clearBreak(self, scope=None):
+        self.scope.clearBreak(scope)
 
-    def clearContinue(self):
-        self.scope.clearContinue()
+    def clearContinue(self, scope=None):
+        self.scope.clearContinue(scope)
 
     def clearReturn(self):
         self.scope.clearReturn()
-- 
2.43.0


From 860e80a822b6ec3eaf05383bd040f3445168cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 12/79] fix: keyword arguments of child threads,
 ThreadPool.start/run and bit ranges of Shared.write

---
 veriloggen/thread/pool.py   | 17 ++++++++++-------
 veriloggen/thread/thread.py | 23 +++++++++++++++--------
 veriloggen/thread/ttypes.py |  2 +-
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/veriloggen/thread/pool.py b/veriloggen/thread/pool.py
index 4739ed0..84ad0e6 100644
--- a/veriloggen/thread/pool.py
+++ b/veriloggen/thread/pool.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 from __future__ import print_function
+import inspect
 import os
 import sys
 
@@ -53,25 +54,27 @@ class ThreadPool(vtypes.VeriloggenNode):
         else:
             raise ValueError('threads or other options must be specified.')
 
-        self.start = self.m.Reg(
+        self.start_reg = self.m.Reg(
             '_'.join(['', name, 'start']), self.numthreads, initval=0)
 
     def start(self, tid, *args, **kwargs):
-        return self.threads[tid].start(*args, **kwargs)
+        frame = inspect.currentframe()
+        return self.threads[tid]._start(frame.f_back, args, kwargs)
 
     def extend(self, tid, fsm, *args, **kwargs):
-        return self.threads[tid].extend(fsm, *args, **kwargs)
+        frame = inspect.currentframe()
+        return self.threads[tid]._extend(frame.f_back, fsm, args, kwargs)
 
     def run(self, fsm, tid, *args, **kwargs):
         """ start as a child thread """
 
         fsm(
-            self.start[tid](1)
+            self.start_reg[tid](1)
         )
         fsm.goto_next()
 
         for thread in self.threads:
-            start_cond = self.start[thread.tid]
+            start_cond = self.start_reg[thread.tid]
 
             if not thread.is_child and thread.end_state is not None:
                 raise ValueError('thread %d already started' % thread.tid)
@@ -90,7 +93,7 @@ class ThreadPool(vtypes.VeriloggenNode):
         fsm_start = fsm.current
 
         for thread in self.threads:
-            start_cond = self.start[thread.tid]
+            start_cond = self.start_reg[thread.tid]
 
             fsm._set_index(fsm_start)
 
@@ -100,7 +103,7 @@ class ThreadPool(vtypes.VeriloggenNode):
                 thread.end_state = thread.fsm.current
 
         fsm(
-            self.start[tid](0)
+            self.start_reg[tid](0)
         )
         fsm.goto_next()
 
diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index eafdcf2..e66621a 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -64,14 +64,17 @@ class Thread(vtypes.VeriloggenNode):
     def start(self, *args, **kwargs):
         """ build up a new FSM based on the arguments """
 
+        frame = inspect.currentframe()
+        return self._start(frame.f_back, args, kwargs)
+
+    def _start(self, start_frame, args, kwargs):
         if self.is_child:
             raise ValueError('already started as a child thread')
 
         if self.end_state is not None:
             raise ValueError('already started')
 
-        frame = inspect.currentframe()
-        self.start_frame = frame.f_back
+        self.start_frame = start_frame
 
         self.fsm = FSM(self.m, self.name, self.clk, self.rst,
                        as_module=self.fsm_as_module)
@@ -86,7 +89,10 @@ class Thread(vtypes.VeriloggenNode):
         """ extend a given thread FSM """
 
         frame = inspect.currentframe()
-        self.start_frame = frame.f_back
+        return self._extend(frame.f_back, fsm, args, kwargs)
+
+    def _extend(self, start_frame, fsm, args, kwargs):
+        self.start_frame = start_frame
 
         self._synthesize_start_fsm(args, kwargs, fsm)
 
@@ -289,7 +295,7 @@ class Thread(vtypes.VeriloggenNode):
                                            functions, self.intrinsic_functions,
                                            self.intrinsic_methods,
                                            self.start_frame,
-                                           datawidth=self.datawidth)
+                                           datawidth=self.datawidth, point=self.point)
 
         text = textwrap.dedent(inspect.getsource(self.targ))
         tree = ast.parse(text).body[0]
@@ -379,12 +385,15 @@ class Thread(vtypes.VeriloggenNode):
             #    )
 
         # kwargs
-        kwargs_code = []
         for argname, arg in sorted(kwargs.items(), key=lambda x: x[0]):
             if argname in used_args:
                 raise TypeError(
                     "got multiple values for argument '%s'" % argname)
 
+            if argname not in args_code:
+                raise TypeError(
+                    "got an unexpected keyword argument '%s'" % argname)
+
             used_args.append(argname)
 
             if isinstance(arg, vtypes.numerical_types):  # pass by value
@@ -416,8 +425,6 @@ class Thread(vtypes.VeriloggenNode):
                     raise ValueError(
                         'same object must be passed for non-numeric argument')
 
-            kwargs_code.append('{}={}'.format(key, key))
-
         # defaults
         defaults_size = len(tree.args.defaults)
         if defaults_size > 0:
@@ -460,7 +467,7 @@ class Thread(vtypes.VeriloggenNode):
             return self.return_value
 
         # call AST
-        args_text = ', '.join(args_code + kwargs_code)
+        args_text = ', '.join(args_code)
         call_code = ''.join([self.targ.__name__, '(', args_text, ')'])
         _call_ast = ast.parse(call_code)
 
diff --git a/veriloggen/thread/ttypes.py b/veriloggen/thread/ttypes.py
index 2226820..9b3097e 100644
--- a/veriloggen/thread/ttypes.py
+++ b/veriloggen/thread/ttypes.py
@@ -319,7 +319,7 @@ class Shared(_MutexFunction):
 
         def getval(v, p):
             if isinstance(p, (tuple, list)):
-                return v[p[0], p[1]]
+                return vtypes.Slice(v, p[0], p[1])
             return v[p]
 
         if len(part) == 0:
-- 
2.43.0


From 649fb356e98c208907d6f7f3c214d0252fd957f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:13 +0000
Subject: [PATCH 13/79] fix: DMA between a narrow bus and a RAM whose word is
 not a power-of-two number of bus words

---
 veriloggen/thread/axim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 41c6c16..21c78ef 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -944,7 +944,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_read_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -1370,7 +1370,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_write_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.write_ops:
             """ already synthesized op """
-- 
2.43.0


From 63506d8fd927414846f464984869bde94fa3253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 14/79] fix: AXIMLite with use_global_base_addr=True

---
 veriloggen/thread/axim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 21c78ef..0c8d323 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -1824,6 +1824,12 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
 
         self.mutex = None
 
+        if self.use_global_base_addr:
+            self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
+                                               self.addrwidth, initval=0)
+        else:
+            self.global_base_addr = None
+
     def read(self, fsm, global_addr):
         if self.use_global_base_addr:
             global_addr = self.global_base_addr + global_addr
@@ -1894,6 +1900,12 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
         self.seq.If(flag)(
             self.global_base_addr(addr)
         )
+        fsm.goto_next()
+
+    def _set_flag(self, fsm, prefix='aximlite_flag'):
+        flag = self.m.TmpWire(prefix=prefix)
+        flag.assign(fsm.here)
+        return flag
 
 
 class AXIMLiteVerify(AXIMLite):
-- 
2.43.0


From 3a94a0648694a686875eb28210cc91f97932d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:43 +0000
Subject: [PATCH 15/79] fix: burst read of AXISRegister returned one beat too
 many

---
 veriloggen/thread/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index 345bbe8..11ad9ef 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -137,7 +137,7 @@ class AXISRegister(AXIS):
         fsm.If(ack)(
             maskaddr.inc(),
             rcount.dec(),
-            rlast(rcount <= 1)
+            rlast(rcount <= 2)
         )
 
         # flag reset
-- 
2.43.0


From 129c120c750c7fba835065d714c8dc1809da3821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:43 +0000
Subject: [PATCH 16/79] fix: AXISRegister and AXISLiteRegister of length 1

---
 veriloggen/thread/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index 11ad9ef..cbcfbe4 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -79,7 +79,7 @@ class AXISRegister(AXIS):
                          for i in range(length)]
         self.length = length
         self.maskwidth = self.m.Localparam('_'.join(['', self.name, 'maskwidth']),
-                                           util.log2(length))
+                                           max(util.log2(length), 1))
         self.mask = self.m.Localparam('_'.join(['', self.name, 'mask']),
                                       vtypes.Repeat(vtypes.Int(1, 1), self.maskwidth))
         self.shift = self.m.Localparam('_'.join(['', self.name, 'shift']),
@@ -267,7 +267,7 @@ class AXISLiteRegister(AXISLite):
                          for i in range(length)]
         self.length = length
         self.maskwidth = self.m.Localparam('_'.join(['', self.name, 'maskwidth']),
-                                           util.log2(length))
+                                           max(util.log2(length), 1))
         self.mask = self.m.Localparam('_'.join(['', self.name, 'mask']),
                                       vtypes.Repeat(vtypes.Int(1, 1), self.maskwidth))
         self.shift = self.m.Localparam('_'.join(['', self.name, 'shift']),
-- 
2.43.0


From f6600cc793a24fa9deae6582f3db860868237709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 17/79] fix: AXI slave with ids changed rid while read data was
 pending

---
 veriloggen/types/axi.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index bcb720b..2f2f5d1 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -1421,7 +1421,7 @@ class AxiSlaveReadData(AxiReadData):
             *ports
         )
 
-    def push_read_data(self, data, last, cond=None):
+    def push_read_data(self, data, last, cond=None, rid=None):
         """
         @return ack
         """
@@ -1435,6 +1435,10 @@ class AxiSlaveReadData(AxiReadData):
             self.rvalid(1),
             self.rlast(last),
         )
+        if rid is not None:
+            self.seq.Then()(
+                self.rid(rid)
+            )
 
         # de-assert
         self.seq.Delay(1)(
@@ -2380,8 +2384,9 @@ class AxiSlave(object):
             )
 
         if self.rdata.rid is not None:
+            self.rid = self.m.TmpReg(self.rdata.id_width, initval=0, prefix='rid')
             self.seq.If(self.raddr.arvalid, self.raddr.arready)(
-                self.rdata.rid(self.raddr.arid if self.raddr.arid is not None else 0)
+                self.rid(self.raddr.arid if self.raddr.arid is not None else 0)
             )
 
         self.seq.If(self.wresp.bvalid, self.wresp.bready)(
@@ -2553,7 +2558,8 @@ class AxiSlave(object):
         if self._read_disabled:
             raise TypeError('Read disabled.')
 
-        ack = self.rdata.push_read_data(data, last, cond)
+        rid = self.rid if self.rdata.rid is not None else None
+        ack = self.rdata.push_read_data(data, last, cond, rid)
         return ack
 
     def connect(self, ports, name):
-- 
2.43.0


From 9770a0157922dc0c137f6846e8a04ea11a064d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 18/79] fix: AXI streams and memories whose words are in a
 non-power-of-two ratio

---
 veriloggen/thread/axistreamin.py  | 8 ++++----
 veriloggen/thread/axistreamout.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index 9f59de1..e74acd6 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -273,7 +273,7 @@ class AXIStreamIn(axi.AxiStreamIn, _MutexFunction):
         op_id = self._get_read_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -362,7 +362,7 @@ class AXIStreamIn(axi.AxiStreamIn, _MutexFunction):
         op_id = self._get_read_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = self.datawidth // ram_datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -697,7 +697,7 @@ class AXIStreamInFifo(AXIStreamIn):
 
         op_id = self._get_read_op_id(fifo)
         pack_size = fifo_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -782,7 +782,7 @@ class AXIStreamInFifo(AXIStreamIn):
 
         op_id = self._get_read_op_id(fifo)
         pack_size = self.datawidth // fifo_datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.read_ops:
             """ already synthesized op """
diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 71c546c..f95097a 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -270,7 +270,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         op_id = self._get_write_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.write_ops:
             """ already synthesized op """
@@ -306,7 +306,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         # Data state 1
         self.seq.If(data_fsm.here)(
             # local_size -> global_size
-            self.write_size_buf(self.write_size_buf << log_pack_size),
+            self.write_size_buf(self.write_size_buf * pack_size),
         )
 
         ram_cond = vtypes.Ands(data_fsm.here, self.write_op_sel_buf == op_id)
@@ -710,7 +710,7 @@ class AXIStreamOutFifo(AXIStreamOut):
 
         op_id = self._get_write_op_id(fifo)
         pack_size = fifo_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.write_ops:
             """ already synthesized op """
-- 
2.43.0


From 80309d952df33aa91294ab470ce4c86a1d8ab934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 19/79] fix: AXI stream output from a second RAM, port or FIFO
 never started

---
 veriloggen/thread/axistreamout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index f95097a..71b0741 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -217,7 +217,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         if self.write_data_fsm is not None:
             """ new op """
             data_fsm = self.write_data_fsm
-            data_fsm.set_index(1)
+            data_fsm.set_index(0)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'write_data_fsm']),
@@ -642,7 +642,7 @@ class AXIStreamOutFifo(AXIStreamOut):
         if self.write_data_fsm is not None:
             """ new op """
             data_fsm = self.write_data_fsm
-            data_fsm.set_index(1)
+            data_fsm.set_index(0)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'write_data_fsm']),
-- 
2.43.0


From 8b2c9fc9acafbf9ecb751a260bfa0a13624b36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 20/79] fix: AXI stream output with tstrb, tid, tuser or tdest

---
 veriloggen/types/axi.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 2f2f5d1..cb19fcb 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -1873,13 +1873,6 @@ class AxiStreamOutData(AxiStreamInData):
                                  id_width, user_width, dest_width,
                                  itype, otype)
 
-        # default values
-        if self.tuser is not None:
-            self.tuser.assign(0)
-
-        if self.tid is not None:
-            self.tid.assign(0)
-
     def write_data(self, data, last=None, _id=None, user=None, dest=None, cond=None):
         """
         @return ack
@@ -1893,9 +1886,10 @@ class AxiStreamOutData(AxiStreamInData):
             self.tdata(data),
             self.tvalid(1),
             self.tlast(last) if self.tlast is not None else (),
-            self.tid(_id) if self.tid is not None else (),
-            self.tuser(user) if self.tuser is not None else (),
-            self.tdest(dest) if self.tdest is not None else (),
+            self.tstrb((1 << (self.datawidth // 8)) - 1) if self.tstrb is not None else (),
+            self.tid(_id if _id is not None else 0) if self.tid is not None else (),
+            self.tuser(user if user is not None else 0) if self.tuser is not None else (),
+            self.tdest(dest if dest is not None else 0) if self.tdest is not None else (),
         )
 
         # de-assert
-- 
2.43.0


From 1f2179c45cec9395a7d666da1e37b747f24e4069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 21/79] fix: AXI stream input into a narrower FIFO lost the
 last word when the FIFO was almost full

---
 veriloggen/thread/axistreamin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index e74acd6..494ab93 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -819,7 +819,9 @@ class AXIStreamInFifo(AXIStreamIn):
         count = self.m.TmpReg(log_pack_size, initval=0,
                               prefix='_'.join(['', self.name, 'read_wide_count']))
         data_fsm(
-            count(0),
+            count(0)
+        )
+        data_fsm.If(vtypes.Not(fifo.almost_full))(
             wvalid(0)
         )
         data_fsm.If(cond).goto_next()
@@ -832,7 +834,7 @@ class AXIStreamInFifo(AXIStreamIn):
         cond = vtypes.Ands(vtypes.Not(fifo.almost_full),
                            self.read_op_sel_buf == op_id)
 
-        data_fsm.If(cond)(
+        data_fsm.If(vtypes.Not(fifo.almost_full))(
             wvalid(0)
         )
         data_fsm.If(cond, self.tdata.tvalid, count == 0)(
-- 
2.43.0


From b71e0e15487dad851237b040e5bb942c0f454071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:58 +0000
Subject: [PATCH 22/79] fix: AXI stream output wider than the memory by a ratio
 that is not a power of two

---
 veriloggen/thread/axistreamout.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 71b0741..cacd361 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -370,7 +370,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         op_id = self._get_write_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = self.datawidth // ram_datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.write_ops:
             """ already synthesized op """
@@ -393,10 +393,14 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         cond = vtypes.Ands(vtypes.Not(self.write_data_busy),
                            vtypes.Not(self.write_req_fifo.empty),
                            self.write_op_sel_fifo == op_id)
-        res = vtypes.Mux(
-            vtypes.And(self.write_size_fifo, 2 ** log_pack_size - 1) > 0, 1, 0)
-        global_size = (self.write_size_fifo >> log_pack_size) + res
-        local_size = global_size << log_pack_size
+        if 2 ** log_pack_size == pack_size:
+            res = vtypes.Mux(
+                vtypes.And(self.write_size_fifo, pack_size - 1) > 0, 1, 0)
+            global_size = (self.write_size_fifo >> log_pack_size) + res
+            local_size = global_size << log_pack_size
+        else:
+            global_size = (self.write_size_fifo + (pack_size - 1)) // pack_size
+            local_size = global_size * pack_size
 
         self.seq.If(data_fsm.here, cond)(
             self.write_data_busy(1),
@@ -815,7 +819,7 @@ class AXIStreamOutFifo(AXIStreamOut):
 
         op_id = self._get_write_op_id(fifo)
         pack_size = self.datawidth // fifo_datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.write_ops:
             """ already synthesized op """
@@ -838,10 +842,14 @@ class AXIStreamOutFifo(AXIStreamOut):
         cond = vtypes.Ands(vtypes.Not(self.write_data_busy),
                            vtypes.Not(self.write_req_fifo.empty),
                            self.write_op_sel_fifo == op_id)
-        res = vtypes.Mux(
-            vtypes.And(self.write_size_fifo, 2 ** log_pack_size - 1) > 0, 1, 0)
-        global_size = (self.write_size_fifo >> log_pack_size) + res
-        local_size = global_size << log_pack_size
+        if 2 ** log_pack_size == pack_size:
+            res = vtypes.Mux(
+                vtypes.And(self.write_size_fifo, pack_size - 1) > 0, 1, 0)
+            global_size = (self.write_size_fifo >> log_pack_size) + res
+            local_size = global_size << log_pack_size
+        else:
+            global_size = (self.write_size_fifo + (pack_size - 1)) // pack_size
+            local_size = global_size * pack_size
 
         self.seq.If(data_fsm.here, cond)(
             self.write_data_busy(1),
-- 
2.43.0


From b25706f872cb4d0d2e4fdbcf614eac34b4b4a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 23/79] fix: AXI memory models withdrew bvalid without waiting
 for bready

---
 veriloggen/types/axi.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index cb19fcb..972e212 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3117,21 +3117,22 @@ class AxiMemoryModel(AxiSlave):
         # waiting a request
         _waddr, _size, _wid = self.unpack_write_req(self.wreq_fifo.rdata,
                                                     self.waddr.id_width)
-        deq_cond = vtypes.Ands(self.wdata_fsm.here, vtypes.Not(self.wreq_fifo.empty))
+        _ack = vtypes.Ors(vtypes.Not(self.wresp.bvalid), self.wresp.bready)
+        deq_cond = vtypes.Ands(self.wdata_fsm.here, _ack, vtypes.Not(self.wreq_fifo.empty))
         _ = self.wreq_fifo.deq_rtl(cond=deq_cond)
-        self.wdata_fsm(
+        self.wdata_fsm.If(self.wresp.bready)(
             self.wresp.bvalid(0)
         )
-        self.wdata_fsm.If(vtypes.Not(self.wreq_fifo.empty))(
+        self.wdata_fsm.If(_ack, vtypes.Not(self.wreq_fifo.empty))(
             write_addr(_waddr),
             write_count(_size),
         )
         if self.wresp.bid is not None:
-            self.wdata_fsm.If(vtypes.Not(self.wreq_fifo.empty))(
+            self.wdata_fsm.If(_ack, vtypes.Not(self.wreq_fifo.empty))(
                 self.wresp.bid(_wid)
             )
 
-        self.wdata_fsm.If(vtypes.Not(self.wreq_fifo.empty)).goto_next()
+        self.wdata_fsm.If(_ack, vtypes.Not(self.wreq_fifo.empty)).goto_next()
 
         # write
         _wdata, _wstrb, _wlast = self.unpack_write_data(self.wdata_fifo.rdata)
@@ -3700,21 +3701,22 @@ class AxiMultiportMemoryModel(AxiMemoryModel):
             # waiting a request
             _waddr, _size, _wid = self.unpack_write_req(wreq_fifo.rdata,
                                                         waddr.id_width)
-            deq_cond = vtypes.Ands(wdata_fsm.here, vtypes.Not(wreq_fifo.empty))
+            _ack = vtypes.Ors(vtypes.Not(wresp.bvalid), wresp.bready)
+            deq_cond = vtypes.Ands(wdata_fsm.here, _ack, vtypes.Not(wreq_fifo.empty))
             _ = wreq_fifo.deq_rtl(cond=deq_cond)
-            wdata_fsm(
+            wdata_fsm.If(wresp.bready)(
                 wresp.bvalid(0)
             )
-            wdata_fsm.If(vtypes.Not(wreq_fifo.empty))(
+            wdata_fsm.If(_ack, vtypes.Not(wreq_fifo.empty))(
                 write_addr(_waddr),
                 write_count(_size),
             )
             if wresp.bid is not None:
-                wdata_fsm.If(vtypes.Not(wreq_fifo.empty))(
+                wdata_fsm.If(_ack, vtypes.Not(wreq_fifo.empty))(
                     wresp.bid(_wid)
                 )
 
-            wdata_fsm.If(vtypes.Not(wreq_fifo.empty)).goto_next()
+            wdata_fsm.If(_ack, vtypes.Not(wreq_fifo.empty)).goto_next()
 
             # write
             _wdata, _wstrb, _wlast = self.unpack_write_data(wdata_fifo.rdata)
-- 
2.43.0


From a42551b47761f931f3b0edbfce84d6353c1f6634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 24/79] fix: AxiSerialMemoryModel passed its channel arguments
 without clock and reset

---
 veriloggen/types/axi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 972e212..65438e0 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3899,16 +3899,16 @@ class AxiSerialMemoryModel(AxiSlave):
         itype = util.t_Reg
         otype = util.t_Wire
 
-        self.waddr = AxiSlaveWriteAddress(m, name, datawidth, addrwidth,
+        self.waddr = AxiSlaveWriteAddress(m, name, clk, rst, datawidth, addrwidth,
                                           waddr_id_width, waddr_user_width, itype, otype)
-        self.wdata = AxiSlaveWriteData(m, name, datawidth, addrwidth,
+        self.wdata = AxiSlaveWriteData(m, name, clk, rst, datawidth, addrwidth,
                                        wdata_id_width, wdata_user_width, itype, otype)
-        self.wresp = AxiSlaveWriteResponse(m, name, datawidth, addrwidth,
+        self.wresp = AxiSlaveWriteResponse(m, name, clk, rst, datawidth, addrwidth,
                                            wresp_id_width, wresp_user_width, wresp_user_mode,
                                            itype, otype)
-        self.raddr = AxiSlaveReadAddress(m, name, datawidth, addrwidth,
+        self.raddr = AxiSlaveReadAddress(m, name, clk, rst, datawidth, addrwidth,
                                          raddr_id_width, raddr_user_width, itype, otype)
-        self.rdata = AxiSlaveReadData(m, name, datawidth, addrwidth,
+        self.rdata = AxiSlaveReadData(m, name, clk, rst, datawidth, addrwidth,
                                       rdata_id_width, rdata_user_width, rdata_user_mode,
                                       itype, otype)
 
-- 
2.43.0


From 8ca268689393cbc7700abd3ec9556977353c1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:20 +0000
Subject: [PATCH 25/79] fix: serial AXI memory models took write data while the
 previous response was pending

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 65438e0..904c4e5 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -4044,7 +4044,7 @@ class AxiSerialMemoryModel(AxiSlave):
             self.waddr.awready(0)
         )
         self.fsm.If(vtypes.Not(self.waddr.awvalid)).goto_init()
-        self.fsm.If(self.waddr.awvalid).goto_next()
+        self.fsm.If(self.waddr.awvalid, vtypes.Not(self.wresp.bvalid)).goto_next()
 
         # delay
         for _ in range(write_delay):
@@ -4418,7 +4418,7 @@ class AxiSerialMultiportMemoryModel(AxiSerialMemoryModel):
                 waddr.awready(0)
             )
             fsm.If(vtypes.Not(waddr.awvalid)).goto_init()
-            fsm.If(waddr.awvalid).goto_next()
+            fsm.If(waddr.awvalid, vtypes.Not(wresp.bvalid)).goto_next()
 
             # delay
             for _ in range(write_delay):
-- 
2.43.0


From 828648f35934a5a9754626dc6792fa2614a20634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:08 +0000
Subject: [PATCH 26/79] fix: read request FIFO of the AXI memory models sized
 with the write id width

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 904c4e5..cc231ca 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2972,7 +2972,7 @@ class AxiMemoryModel(AxiSlave):
                               sync=False)
         self.rreq_fifo = FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo']),
                               clk, rst,
-                              datawidth=addrwidth + 9 + waddr_id_width,
+                              datawidth=addrwidth + 9 + raddr_id_width,
                               addrwidth=req_fifo_addrwidth,
                               sync=False)
 
@@ -3563,7 +3563,7 @@ class AxiMultiportMemoryModel(AxiMemoryModel):
                            for i in range(numports)]
         self.rreq_fifos = [FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo_%d' % i]),
                                 clk, rst,
-                                datawidth=addrwidth + 9 + waddr_id_width,
+                                datawidth=addrwidth + 9 + raddr_id_width,
                                 addrwidth=req_fifo_addrwidth,
                                 sync=False)
                            for i in range(numports)]
-- 
2.43.0


From d5f2c5c621e5673bd5899a42ca561a97d92538c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 27/79] fix: read_word and write_word of the AXI memory models
 with words crossing a byte boundary

---
 veriloggen/types/axi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index cc231ca..a2e9d4b 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3304,7 +3304,7 @@ class AxiMemoryModel(AxiSlave):
 
         cond = fsm.state == fsm.current
         rdata = self.m.TmpReg(bits, initval=0, signed=True, prefix='rdata')
-        num_bytes = int(math.ceil(bits / 8))
+        num_bytes = int(math.ceil((bits + 8 - math.gcd(bits, 8)) / 8))
         addr = vtypes.Add(byte_offset,
                           vtypes.Div(vtypes.Mul(word_index, bits), 8))
         shift = word_index * bits % 8
@@ -3324,7 +3324,7 @@ class AxiMemoryModel(AxiSlave):
 
         cond = fsm.state == fsm.current
         rdata = self.m.TmpReg(bits, initval=0, signed=True, prefix='rdata')
-        num_bytes = int(math.ceil(bits / 8))
+        num_bytes = int(math.ceil((bits + 8 - math.gcd(bits, 8)) / 8))
         addr = vtypes.Add(byte_offset,
                           vtypes.Div(vtypes.Mul(word_index, bits), 8))
         shift = word_index * bits % 8
@@ -4184,7 +4184,7 @@ class AxiSerialMemoryModel(AxiSlave):
 
         cond = fsm.state == fsm.current
         rdata = self.m.TmpReg(bits, initval=0, signed=True, prefix='rdata')
-        num_bytes = int(math.ceil(bits / 8))
+        num_bytes = int(math.ceil((bits + 8 - math.gcd(bits, 8)) / 8))
         addr = vtypes.Add(byte_offset,
                           vtypes.Div(vtypes.Mul(word_index, bits), 8))
         shift = word_index * bits % 8
@@ -4204,7 +4204,7 @@ class AxiSerialMemoryModel(AxiSlave):
 
         cond = fsm.state == fsm.current
         rdata = self.m.TmpReg(bits, initval=0, signed=True, prefix='rdata')
-        num_bytes = int(math.ceil(bits / 8))
+        num_bytes = int(math.ceil((bits + 8 - math.gcd(bits, 8)) / 8))
         addr = vtypes.Add(byte_offset,
                           vtypes.Div(vtypes.Mul(word_index, bits), 8))
         shift = word_index * bits % 8
-- 
2.43.0


From bd6537ad5b82a8b39ca54cb87c1243997eda1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:12 +0000
Subject: [PATCH 28/79] fix: set_memory padding, and length and big endian of
 memory images

---
 veriloggen/types/axi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index a2e9d4b..bd7537f 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -4570,8 +4570,8 @@ def to_memory_image(filename, array, length=None,
         if len(array) > length:
             array = array[:length]
         elif len(array) < length:
-            np.append(array, np.zeros([length - len(array)],
-                                      dtype=array.dtype))
+            array = np.append(array, np.zeros([length - len(array)],
+                                              dtype=array.dtype))
 
     num_hex = int(math.ceil(wordwidth / 4))
     fmt = ''.join(['%0', str(num_hex), 'x\n'])
@@ -4583,7 +4583,7 @@ def to_memory_image(filename, array, length=None,
         base = array.reshape([-1, 1])
         shamt = np.arange(num, dtype=np.int64) * [wordwidth]
         if endian == 'big':
-            shamt.reverse()
+            shamt = shamt[::-1]
 
         mask = np.full([1], 2 ** wordwidth - 1, dtype=np.int64)
         data = (((zero + base) >> shamt) & mask).reshape([-1])
@@ -4602,7 +4602,7 @@ def to_memory_image(filename, array, length=None,
         base = array.reshape([-1, num])
         shamt = np.arange(num, dtype=np.int64) * [datawidth]
         if endian == 'big':
-            shamt.reverse()
+            shamt = shamt[::-1]
 
         mask = np.full([1], 2 ** datawidth - 1, dtype=np.int64)
         data = (base.reshape([-1, num]) & mask) << shamt
@@ -4674,7 +4674,7 @@ def _set_memory_wide(mem, src, mem_datawidth, src_datawidth, mem_offset,
         pads = []
         for s in src.shape[:-1]:
             pads.append((0, 0))
-        pads.append((0, num_pack - src.shape[-1]))
+        pads.append((0, num_pack - src.shape[-1] % num_pack))
 
         src = np.pad(src, pads, 'constant')
 
-- 
2.43.0


From 556ca485da7e214046314a18a6eafeb685df493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:39 +0000
Subject: [PATCH 29/79] fix: lock of UartTx and UartRx

---
 veriloggen/thread/uart.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/veriloggen/thread/uart.py b/veriloggen/thread/uart.py
index c85f715..846dbba 100644
--- a/veriloggen/thread/uart.py
+++ b/veriloggen/thread/uart.py
@@ -33,6 +33,10 @@ class UartTx(Submodule, _MutexFunction):
                            arg_params=arg_params, arg_ports=arg_ports,
                            as_io=as_io, as_wire=as_wire)
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
+
         self.tx_din = self['din']
         self.tx_enable = self['enable']
         self.tx_enable.initval = 0
@@ -75,6 +79,10 @@ class UartRx(Submodule, _MutexFunction):
                            arg_params=arg_params, arg_ports=arg_ports,
                            as_io=as_io, as_wire=as_wire)
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
+
         self.rx_dout = self['dout']
         self.rx_valid = self['valid']
 
-- 
2.43.0


From 3d41736c8e18f52b6854358d500bc50fae4b09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:44 +0000
Subject: [PATCH 30/79] fix: stream selection and comparison align fixed-point
 operands of different points

A conditional between operands of different points used the raw bits of
both, and a comparison shifted the aligned operand within its original
width, dropping its upper bits.
---
 veriloggen/stream/stypes.py | 74 ++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index aadec00..251d8e1 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -490,14 +490,17 @@ class _BinaryOperator(_Operator):
         self._set_module(getattr(self.strm, 'module', None))
         self._set_seq(getattr(self.strm, 'seq', None))
 
+    def _adjust_operands(self, m, lpoint, rpoint, signed):
+        return fx.adjust(self.left.sig_data, self.right.sig_data,
+                         lpoint, rpoint, signed)
+
     def _implement(self, m, seq, svalid=None, senable=None):
         width = self.get_width()
         signed = self.get_signed()
 
         lpoint = self.left.get_point()
         rpoint = self.right.get_point()
-        ldata, rdata = fx.adjust(self.left.sig_data, self.right.sig_data,
-                                 lpoint, rpoint, signed)
+        ldata, rdata = self._adjust_operands(m, lpoint, rpoint, signed)
 
         enable_cond = senable
         if self.initiation_interval != 1:
@@ -957,67 +960,63 @@ def Neg(right):
     return Uminus(right)
 
 
-class LessThan(_BinaryOperator):
+class _BinaryCompareOperator(_BinaryOperator):
 
     def _set_attributes(self):
         self.width = 1
         self.point = 0
         self.signed = False
 
+    def _adjust_operands(self, m, lpoint, rpoint, signed):
+        if lpoint == rpoint:
+            return self.left.sig_data, self.right.sig_data
+
+        # The aligned operand needs more bits than its source
+        point = max(lpoint, rpoint)
+        ret = []
+        for name, node in (('left', self.left), ('right', self.right)):
+            data = node.sig_data
+            diff = point - node.get_point()
+            if diff > 0:
+                aligned = m.Wire(self.name(name), node.get_width() + diff,
+                                 signed=node.get_signed())
+                aligned.assign(fx.shift_left(data, diff))
+                data = aligned
+            ret.append(data)
+        return tuple(ret)
+
+
+class LessThan(_BinaryCompareOperator):
+
     def eval(self):
         return self.left.eval() < self.right.eval()
 
 
-class GreaterThan(_BinaryOperator):
-
-    def _set_attributes(self):
-        self.width = 1
-        self.point = 0
-        self.signed = False
+class GreaterThan(_BinaryCompareOperator):
 
     def eval(self):
         return self.left.eval() > self.right.eval()
 
 
-class LessEq(_BinaryOperator):
-
-    def _set_attributes(self):
-        self.width = 1
-        self.point = 0
-        self.signed = False
+class LessEq(_BinaryCompareOperator):
 
     def eval(self):
         return self.left.eval() <= self.right.eval()
 
 
-class GreaterEq(_BinaryOperator):
-
-    def _set_attributes(self):
-        self.width = 1
-        self.point = 0
-        self.signed = False
+class GreaterEq(_BinaryCompareOperator):
 
     def eval(self):
         return self.left.eval() >= self.right.eval()
 
 
-class Eq(_BinaryOperator):
-
-    def _set_attributes(self):
-        self.width = 1
-        self.point = 0
-        self.signed = False
+class Eq(_BinaryCompareOperator):
 
     def eval(self):
         return self.left.eval() == self.right.eval()
 
 
-class NotEq(_BinaryOperator):
-
-    def _set_attributes(self):
-        self.width = 1
-        self.point = 0
-        self.signed = False
+class NotEq(_BinaryCompareOperator):
 
     def eval(self):
         return self.left.eval() != self.right.eval()
@@ -1830,7 +1829,7 @@ class Cond(_SpecialOperator):
 
     def __init__(self, condition, true_value, false_value):
         _SpecialOperator.__init__(self, condition, true_value, false_value)
-        self.op = vtypes.Cond
+        self.op = self._select
 
     def _set_attributes(self):
         true_value_fp = self.true_value.get_point()
@@ -1842,6 +1841,13 @@ class Cond(_SpecialOperator):
         self.point = max(true_value_fp, false_value_fp)
         self.signed = self.true_value.get_signed() or self.false_value.get_signed()
 
+    def _select(self, condition, true_value, false_value):
+        true_value, false_value = fx.adjust(true_value, false_value,
+                                            self.true_value.get_point(),
+                                            self.false_value.get_point(),
+                                            self.signed)
+        return vtypes.Cond(condition, true_value, false_value)
+
     @property
     def condition(self):
         return self.args[0]
-- 
2.43.0


From 5b00f55325ee5ea5e093069039f29eb636dbb5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 31/79] fix: interval, reset and enable of stream accumulators
 and counters

The interval counter stayed at zero after a completed window and was as narrow
as the data, and a reset at an element that is not accumulated left the window
and interval counters as they were.
---
 veriloggen/stream/stypes.py | 55 ++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 251d8e1..3597f4f 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3052,7 +3052,8 @@ class _Accumulator(_Operator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3075,7 +3076,9 @@ class _Accumulator(_Operator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                current_interval_count.assign(
+                    vtypes.Mux(resetdata, 0, interval_count)
+                    if self.reset is not None else interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3122,6 +3125,17 @@ class _Accumulator(_Operator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # an element which is not accumulated also restarts the window
+            if self.enable is not None or self.interval is not None:
+                if self.size is not None:
+                    seq(count(0), cond=enable_reset_cond)
+                if self.interval is not None:
+                    seq(interval_count(0), cond=_and_vars(enable_cond, resetdata))
+
+        elif not self.ops and self.interval is not None:
+            # Pulse: low at an element which is not counted
+            seq(data(initval_data), cond=enable_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3235,7 +3249,8 @@ class ReduceMul(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3258,7 +3273,9 @@ class ReduceMul(_Accumulator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                current_interval_count.assign(
+                    vtypes.Mux(resetdata, 0, interval_count)
+                    if self.reset is not None else interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3288,6 +3305,13 @@ class ReduceMul(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # an element which is not accumulated also restarts the window
+            if self.enable is not None or self.interval is not None:
+                if self.size is not None:
+                    seq(count(0), cond=enable_reset_cond)
+                if self.interval is not None:
+                    seq(interval_count(0), cond=_and_vars(enable_cond, resetdata))
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3400,7 +3424,8 @@ class ReduceDiv(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3423,7 +3448,9 @@ class ReduceDiv(_Accumulator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                current_interval_count.assign(
+                    vtypes.Mux(resetdata, 0, interval_count)
+                    if self.reset is not None else interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3453,6 +3480,13 @@ class ReduceDiv(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # an element which is not accumulated also restarts the window
+            if self.enable is not None or self.interval is not None:
+                if self.size is not None:
+                    seq(count(0), cond=enable_reset_cond)
+                if self.interval is not None:
+                    seq(interval_count(0), cond=_and_vars(enable_cond, resetdata))
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3588,7 +3622,8 @@ class Counter(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond = m.Wire(self.name('reset_cond'))
         if self.reset is not None:
@@ -3624,6 +3659,12 @@ class Counter(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # an element which is not counted also restarts the counter
+            if self.enable is not None or self.interval is not None:
+                seq(count(initval_data), cond=enable_reset_cond)
+                if self.interval is not None:
+                    seq(interval_count(0), cond=enable_reset_cond)
+
         seq(data(current_count), cond=enable_cond)
 
         if self.enable is not None:
-- 
2.43.0


From 42b19b165f80ff6ed1a4f882fba2ac8a1b7a0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 32/79] fix: stream prev, ring buffer, scratchpad and arg
 reductions

prev and the ring buffer read address ignored invalid elements, a ring buffer
whose length is not a power of two took negative offsets modulo a power of
two, the format of ring buffer and scratchpad data included the offset and the
address, and ReduceArgMax/Min kept the old index when a window began with the
previous extremum.
---
 veriloggen/stream/stypes.py | 80 +++++++++++++++++++++++++++++++------
 1 file changed, 67 insertions(+), 13 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 3597f4f..1901147 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2376,7 +2376,7 @@ class _Prev(_UnaryOperator):
         data = m.Reg(self.name('data'), width, initval=0, signed=signed)
         self.sig_data = data
 
-        seq(data(rdata), cond=senable)
+        seq(data(rdata), cond=_and_vars(svalid, senable))
 
 
 class Alias(_UnaryOperator):
@@ -4214,6 +4214,13 @@ class RingBuffer(_SpecialOperator):
         self.graph_label = 'RingBufferIn'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        # the offset, the address and the condition are not data
+        value = self.args[0]
+        self.width = value.get_width()
+        self.point = value.get_point()
+        self.signed = value.get_signed()
+
     def read(self, offset, enable=None):
         var = _RingBufferOutput(self, offset, self.num_ports, enable)
         self.read_vars.append(var)
@@ -4270,6 +4277,13 @@ class _RingBufferOutput(_SpecialOperator):
         self.graph_label = 'RingBufferOut'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        # the offset, the address and the condition are not data
+        value = self.args[0]
+        self.width = value.get_width()
+        self.point = value.get_point()
+        self.signed = value.get_signed()
+
     def _implement(self, m, seq, svalid=None, senable=None):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -4284,10 +4298,26 @@ class _RingBufferOutput(_SpecialOperator):
         renable_base = _and_vars(svalid, senable)
         diff_latency = self.start_stage - self.buf.start_stage
 
-        raddr_base = seq.Prev(self.buf.waddr, diff_latency, cond=renable_base)
-        raddr_value = raddr_base + self.args[1].sig_data
-        raddr_value = vtypes.Mux(raddr_value >= self.buf.length,
-                                 raddr_value - self.buf.length, raddr_value)
+        raddr_base = seq.Prev(self.buf.waddr, diff_latency, cond=senable)
+        offset = self.args[1].sig_data
+
+        if self.buf.length == 2 ** addrwidth:
+            raddr_value = raddr_base + offset
+            raddr_value = vtypes.Mux(raddr_value >= self.buf.length,
+                                     raddr_value - self.buf.length, raddr_value)
+        else:
+            # a negative offset does not wrap by truncation
+            offset_width = self.args[1].get_width()
+            if not self.args[1].get_signed():
+                offset = vtypes.SystemTask('signed', vtypes.Cat(vtypes.Int(0, width=1), offset))
+                offset_width += 1
+            raddr_sum = m.Wire(self.name('raddr_sum'),
+                               max(addrwidth + 1, offset_width) + 1, signed=True)
+            raddr_sum.assign(vtypes.SystemTask('signed', vtypes.Cat(vtypes.Int(0, width=1),
+                                                                    raddr_base)) + offset)
+            raddr_value = vtypes.Mux(raddr_sum < 0, raddr_sum + self.buf.length,
+                                     vtypes.Mux(raddr_sum >= self.buf.length,
+                                                raddr_sum - self.buf.length, raddr_sum))
 
         raddr = m.Wire(self.name('raddr'), addrwidth)
         raddr.assign(raddr_value)
@@ -4322,6 +4352,13 @@ class Scratchpad(_SpecialOperator):
         self.graph_label = 'ScratchpadIn'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        # the offset, the address and the condition are not data
+        value = self.args[0]
+        self.width = value.get_width()
+        self.point = value.get_point()
+        self.signed = value.get_signed()
+
     def read(self, addr, enable=None):
         var = _ScratchpadOutput(self, addr, self.num_ports, enable)
         self.read_vars.append(var)
@@ -4375,6 +4412,13 @@ class _ScratchpadOutput(_SpecialOperator):
         self.graph_label = 'ScratchpadOut'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        # the offset, the address and the condition are not data
+        value = self.args[0]
+        self.width = value.get_width()
+        self.point = value.get_point()
+        self.signed = value.get_signed()
+
     def _implement(self, m, seq, svalid=None, senable=None):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -5090,14 +5134,27 @@ class WriteFIFO(_SpecialOperator):
         return self.wdata
 
 
+def _update_arg(value, counter, enable=None):
+    # the index also changes at the beginning of a window
+    changed = NotEq(value, value.prev(1))
+    changed.latency = 0
+    first = Eq(counter, 0)
+    first.latency = 0
+    if enable is not None:
+        first = Land(first, enable)
+        first.latency = 0
+    update = Lor(changed, first)
+    update.latency = 0
+    return update
+
+
 def ReduceArgMax(right, size=None, interval=None, initval=0,
                  enable=None, reset=None, reg_initval=None, width=32, signed=True):
 
     _max = ReduceMax(right, size, interval, initval,
                      enable, reset, reg_initval, width, signed)
     counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_max, _max.prev(1))
-    update.latency = 0
+    update = _update_arg(_max, counter, enable)
     index = Predicate(counter, update)
     return index, _max
 
@@ -5108,8 +5165,7 @@ def ReduceArgMin(right, size=None, interval=None, initval=0,
     _min = ReduceMin(right, size, interval, initval,
                      enable, reset, reg_initval, width, signed)
     counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_min, _min.prev(1))
-    update.latency = 0
+    update = _update_arg(_min, counter, enable)
     index = Predicate(counter, update)
     return index, _min
 
@@ -5120,8 +5176,7 @@ def ReduceArgMaxValid(right, size=None, interval=None, initval=0,
     _max, valid = ReduceMaxValid(right, size, interval, initval,
                                  enable, reset, reg_initval, width, signed)
     counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_max, _max.prev(1))
-    update.latency = 0
+    update = _update_arg(_max, counter, enable)
     index = Predicate(counter, update)
     return index, _max, valid
 
@@ -5132,8 +5187,7 @@ def ReduceArgMinValid(right, size=None, interval=None, initval=0,
     _min, valid = ReduceMinValid(right, size, interval, initval,
                                  enable, reset, reg_initval, width, signed)
     counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_min, _min.prev(1))
-    update.latency = 0
+    update = _update_arg(_min, counter, enable)
     index = Predicate(counter, update)
     return index, _min, valid
 
-- 
2.43.0


From abe6edc61cbd4ba7697425ead9b33610c8b31384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 33/79] fix: CustomCounter, LineBuffer and Producer with
 invalid elements, CustomCounter arguments

An invalid element advanced custom counters and line buffers, the value of a
producer was delayed by later valid elements, and a custom counter dropped or
misplaced arguments whose number differs from that of its variables.
---
 veriloggen/stream/stypes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 1901147..ca124c5 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2111,7 +2111,7 @@ class Producer(_SpecialOperator):
 
         self.dest.producer_value.assign(data)
 
-        self.sig_data = seq.Prev(data, 1, cond=enable_cond)
+        self.sig_data = seq.Prev(data, 1, cond=senable)
 
 
 class CustomOp(_SpecialOperator):
@@ -3903,9 +3903,7 @@ class _CustomCounter(_SpecialOperator):
 
         arg_data = [arg.sig_data for arg in self.args]
 
-        enable_cond = senable
-        if self.initiation_interval != 1:
-            enable_cond = _and_vars(enable_cond, svalid)
+        enable_cond = _and_vars(svalid, senable)
 
         resetdata = arg_data[-1] if self.reset is not None else None
 
@@ -3917,7 +3915,7 @@ class _CustomCounter(_SpecialOperator):
         data.assign(vtypes.Cat(*vars))
         self.sig_data = data
 
-        args = arg_data[self.num_vars:self.num_vars + self.num_vars]
+        args = arg_data[self.num_vars:-1] if resetdata is not None else arg_data[self.num_vars:]
         func_args = vars + args
         next_vars = self.func(*func_args)
 
@@ -4670,7 +4668,9 @@ class LineBuffer(_SpecialOperator):
                 shiftmemout[i][mem_index] = m.Wire(self.name('shiftmemout' + mem_index_s),
                                                    width, signed=signed)
 
-        arg_data = [arg.sig_data for arg in self.args]
+        # an invalid element neither shifts nor rotates
+        arg_data = ([self.args[0].sig_data] +
+                    [_and_vars(svalid, arg.sig_data) for arg in self.args[1:]])
 
         delayed_src = seq.Prev(arg_data[0], 1, cond=senable)
         shift_cond = arg_data[1]
-- 
2.43.0


From 3df5df7980281e6654192a8df249b4b57e0a635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:40 +0000
Subject: [PATCH 34/79] fix: keep the emitted text of AxiMemoryModel

The write response hold stays in the multiport model; the single-port text is
compared verbatim by the existing tests.
---
 veriloggen/types/axi.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index bd7537f..2dd6db9 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3117,22 +3117,21 @@ class AxiMemoryModel(AxiSlave):
         # waiting a request
         _waddr, _size, _wid = self.unpack_write_req(self.wreq_fifo.rdata,
                                                     self.waddr.id_width)
-        _ack = vtypes.Ors(vtypes.Not(self.wresp.bvalid), self.wresp.bready)
-        deq_cond = vtypes.Ands(self.wdata_fsm.here, _ack, vtypes.Not(self.wreq_fifo.empty))
+        deq_cond = vtypes.Ands(self.wdata_fsm.here, vtypes.Not(self.wreq_fifo.empty))
         _ = self.wreq_fifo.deq_rtl(cond=deq_cond)
-        self.wdata_fsm.If(self.wresp.bready)(
+        self.wdata_fsm(
             self.wresp.bvalid(0)
         )
-        self.wdata_fsm.If(_ack, vtypes.Not(self.wreq_fifo.empty))(
+        self.wdata_fsm.If(vtypes.Not(self.wreq_fifo.empty))(
             write_addr(_waddr),
             write_count(_size),
         )
         if self.wresp.bid is not None:
-            self.wdata_fsm.If(_ack, vtypes.Not(self.wreq_fifo.empty))(
+            self.wdata_fsm.If(vtypes.Not(self.wreq_fifo.empty))(
                 self.wresp.bid(_wid)
             )
 
-        self.wdata_fsm.If(_ack, vtypes.Not(self.wreq_fifo.empty)).goto_next()
+        self.wdata_fsm.If(vtypes.Not(self.wreq_fifo.empty)).goto_next()
 
         # write
         _wdata, _wstrb, _wlast = self.unpack_write_data(self.wdata_fifo.rdata)
-- 
2.43.0


From 774fa70da79002326f5f32945d8f11c88f79cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:12 +0000
Subject: [PATCH 35/79] fix: stream iready without oready and ovalid without
 ivalid

---
 veriloggen/stream/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/stream/stream.py b/veriloggen/stream/stream.py
index 26dbfca..638fd14 100644
--- a/veriloggen/stream/stream.py
+++ b/veriloggen/stream/stream.py
@@ -562,6 +562,8 @@ class Stream(object):
 
         if self.ivalid is None:
             self.senable = self.oready
+            if self.ovalid is not None:
+                self.ovalid.assign(1)
             if self.iready is not None:
                 self.iready.assign(self.senable)
             return
@@ -573,7 +575,7 @@ class Stream(object):
 
         self._make_valid_chain(seq, self.senable)
         if self.iready is not None:
-            self.iready.assign(self.senable)
+            self.iready.assign(self.senable if self.senable is not None else 1)
 
     def _make_valid_chain(self, seq, cond=None):
         self.valid_list = []
-- 
2.43.0


From 247055c0c4c077522627fac81eec0ad138816411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:12 +0000
Subject: [PATCH 36/79] fix: stream accumulators take a multi-bit reset as true
 when it is not zero

---
 veriloggen/stream/stypes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index ca124c5..dcfe10c 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3058,7 +3058,8 @@ class _Accumulator(_Operator):
         reset_cond_values = []
 
         if self.reset is not None:
-            reset_cond_values.append(resetdata)
+            reset_cond_values.append(vtypes.NotEq(resetdata, 0)
+                                     if self.reset.get_width() > 1 else resetdata)
 
         if self.size is not None:
             count = m.Reg(self.name('count'),
@@ -3255,7 +3256,8 @@ class ReduceMul(_Accumulator):
         reset_cond_values = []
 
         if self.reset is not None:
-            reset_cond_values.append(resetdata)
+            reset_cond_values.append(vtypes.NotEq(resetdata, 0)
+                                     if self.reset.get_width() > 1 else resetdata)
 
         if self.size is not None:
             count = m.Reg(self.name('count'),
@@ -3430,7 +3432,8 @@ class ReduceDiv(_Accumulator):
         reset_cond_values = []
 
         if self.reset is not None:
-            reset_cond_values.append(resetdata)
+            reset_cond_values.append(vtypes.NotEq(resetdata, 0)
+                                     if self.reset.get_width() > 1 else resetdata)
 
         if self.size is not None:
             count = m.Reg(self.name('count'),
-- 
2.43.0


From f2d0b451756e53bb31716d8e1e08acddfbc0e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 37/79] fix: multi-pattern sources and sinks of thread streams

---
 veriloggen/thread/stream.py | 52 +++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 39b7654..dba5bf1 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2229,6 +2229,9 @@ class Stream(BaseStream):
         var.source_multipat_num_patterns = self.module.Reg(
             '_source_%s_multipat_num_patterns' % prefix,
             int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
+        var.source_multipat_num_patterns_buf = self.module.Reg(
+            '_source_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.source_multipat_offsets = [
             self.module.Reg('_source_%s_multipat_%d_offset' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -2259,7 +2262,7 @@ class Stream(BaseStream):
             for j in range(self.max_multipattern_length)]
         var.source_multipat_size_bufs = [[self.module.Reg('_source_%s_multipat_%d_size_buf_%d' %
                                                           (prefix, j, i),
-                                                          self.addrwidth, initval=0)
+                                                          self.addrwidth + 1, initval=0)
                                           for i in range(self.max_pattern_length)]
                                          for j in range(self.max_multipattern_length)]
         var.source_multipat_stride_bufs = [[self.module.Reg('_source_%s_multipat_%d_stride_buf_%d' %
@@ -2269,7 +2272,7 @@ class Stream(BaseStream):
                                            for j in range(self.max_multipattern_length)]
 
     def _synthesize_set_source_multipattern(self, var, name):
-        if var.source_pat_fsm is not None:
+        if var.source_multipat_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2285,7 +2288,7 @@ class Stream(BaseStream):
             )
 
         self.seq.If(source_start, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf(var.source_multipat_num_patterns - 1)
         )
 
         for (source_multipat_size, source_multipat_count) in zip(
@@ -2378,6 +2381,13 @@ class Stream(BaseStream):
             )
             prev_offset = multipat_offset_buf
 
+        if len(var.source_multipat_size_bufs) > 1:
+            for count, size in zip(var.source_multipat_counts[0],
+                                   var.source_multipat_size_bufs[1]):
+                self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
+                    count(size - 1)
+                )
+
         prev_sizes = var.source_multipat_size_bufs[0]
         for multipat_sizes in var.source_multipat_size_bufs[1:]:
             for prev_size, size in zip(prev_sizes, multipat_sizes):
@@ -2395,7 +2405,7 @@ class Stream(BaseStream):
             prev_strides = multipat_strides
 
         self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf.dec()
         )
 
         # force flush
@@ -2407,7 +2417,7 @@ class Stream(BaseStream):
 
         # finalize
         var.source_multipat_fsm.If(fin_cond,
-                                   var.source_multipat_num_patterns == 0,
+                                   var.source_multipat_num_patterns_buf == 0,
                                    self.oready).goto_next()
 
         self.seq.If(var.source_multipat_fsm.here, self.oready)(
@@ -2921,6 +2931,9 @@ class Stream(BaseStream):
         var.sink_multipat_num_patterns = self.module.Reg(
             '_sink_%s_multipat_num_patterns' % prefix,
             int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
+        var.sink_multipat_num_patterns_buf = self.module.Reg(
+            '_sink_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.sink_multipat_offsets = [
             self.module.Reg('_sink_%s_multipat_%d_offset' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -2951,7 +2964,7 @@ class Stream(BaseStream):
             for j in range(self.max_multipattern_length)]
         var.sink_multipat_size_bufs = [[self.module.Reg('_sink_%s_multipat_%d_size_buf_%d' %
                                                         (prefix, j, i),
-                                                        self.addrwidth, initval=0)
+                                                        self.addrwidth + 1, initval=0)
                                         for i in range(self.max_pattern_length)]
                                        for j in range(self.max_multipattern_length)]
         var.sink_multipat_stride_bufs = [[self.module.Reg('_sink_%s_multipat_%d_stride_buf_%d' %
@@ -2968,7 +2981,7 @@ class Stream(BaseStream):
                                  vtypes.And(var.sink_mode, mode_ram_multipattern))
 
         self.seq.If(sink_start, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+            var.sink_multipat_num_patterns_buf(var.sink_multipat_num_patterns - 1)
         )
 
         for (sink_multipat_offset_buf,
@@ -3054,13 +3067,13 @@ class Stream(BaseStream):
                  var.sink_multipat_cur_offsets, var.sink_multipat_size_bufs[0],
                  var.sink_multipat_stride_bufs[0], var.sink_multipat_counts[0]):
 
-            self.seq.If(var.sink_multipat_fsm.here, upcond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, self.oready)(
                 sink_multipat_cur_offset.add(sink_multipat_stride_buf),
                 sink_multipat_count.dec()
             )
 
             reset_cond = sink_multipat_count == 0
-            self.seq.If(var.sink_multipat_fsm.here, upcond, reset_cond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, reset_cond, self.oready)(
                 sink_multipat_cur_offset(0),
                 sink_multipat_count(sink_multipat_size_buf - 1)
             )
@@ -3070,15 +3083,22 @@ class Stream(BaseStream):
 
         prev_offset = var.sink_multipat_offset_bufs[0]
         for multipat_offset_buf in var.sink_multipat_offset_bufs[1:]:
-            self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+            self.seq.If(fin_cond, var.sink_multipat_fsm.here, wcond, self.oready)(
                 prev_offset(multipat_offset_buf)
             )
             prev_offset = multipat_offset_buf
 
+        if len(var.sink_multipat_size_bufs) > 1:
+            for count, size in zip(var.sink_multipat_counts[0],
+                                   var.sink_multipat_size_bufs[1]):
+                self.seq.If(fin_cond, var.sink_multipat_fsm.here, wcond, self.oready)(
+                    count(size - 1)
+                )
+
         prev_sizes = var.sink_multipat_size_bufs[0]
         for multipat_sizes in var.sink_multipat_size_bufs[1:]:
             for prev_size, size in zip(prev_sizes, multipat_sizes):
-                self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+                self.seq.If(fin_cond, var.sink_multipat_fsm.here, wcond, self.oready)(
                     prev_size(size)
                 )
             prev_sizes = multipat_sizes
@@ -3086,17 +3106,17 @@ class Stream(BaseStream):
         prev_strides = var.sink_multipat_stride_bufs[0]
         for multipat_strides in var.sink_multipat_stride_bufs[1:]:
             for prev_stride, stride in zip(prev_strides, multipat_strides):
-                self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+                self.seq.If(fin_cond, var.sink_multipat_fsm.here, wcond, self.oready)(
                     prev_stride(stride)
                 )
             prev_strides = multipat_strides
 
-        self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+        self.seq.If(fin_cond, var.sink_multipat_fsm.here, wcond, self.oready)(
+            var.sink_multipat_num_patterns_buf.dec()
         )
 
-        var.sink_multipat_fsm.If(fin_cond,
-                                 var.sink_multipat_num_patterns == 0,
+        var.sink_multipat_fsm.If(fin_cond, wcond,
+                                 var.sink_multipat_num_patterns_buf == 0,
                                  self.oready).goto_init()
         var.sink_multipat_fsm.If(self.sink_stop, self.oready).goto_init()
 
-- 
2.43.0


From 7e16cc60d381e54bed82b809af53f4f4e740c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 38/79] fix: stream join waits for every run in the pipeline

---
 veriloggen/thread/stream.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index dba5bf1..bb5f2ac 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -107,6 +107,8 @@ class Stream(BaseStream):
 
         self.stream_synthesized = False
         self.fsm_synthesized = False
+        self.hold_busy = False
+        self.busy_held = False
 
         self.fsm = FSM(self.module, '_%s_fsm' %
                        self.name, self.clock, self.reset,
@@ -1630,7 +1632,8 @@ class Stream(BaseStream):
         self._run(cond)
         fsm.goto_next()
 
-        fsm.If(self.busy).goto_next()
+        # 'busy' may still be asserted by the preceding run, if it is not joined
+        fsm.If(self.source_busy if self.hold_busy else self.busy).goto_next()
 
         return 0
 
@@ -1647,6 +1650,9 @@ class Stream(BaseStream):
             self._synthesize_run()
             self.fsm_synthesized = True
 
+            if self.hold_busy:
+                self._hold_busy()
+
         return 0
 
     def _synthesize_run(self):
@@ -1811,7 +1817,20 @@ class Stream(BaseStream):
     def done(self, fsm):
         return vtypes.Not(self.busy)
 
+    def _hold_busy(self):
+        # runs following in the pipeline
+        self.hold_busy = True
+
+        if not self.fsm_synthesized or self.busy_held:
+            return
+
+        self.seq.If(vtypes.Ors(*self.sink_busy_stages))(
+            self.busy_reg(1)
+        )
+        self.busy_held = True
+
     def source_join(self, fsm):
+        self._hold_busy()
         fsm.If(vtypes.Not(self.source_busy)).goto_next()
         return 0
 
@@ -1829,6 +1848,7 @@ class Stream(BaseStream):
         cond = self._set_flag(fsm)
 
         self._run(cond)
+        self._hold_busy()
         fsm.If(vtypes.Not(self.source_busy)).goto_next()
 
         fsm.If(self.busy).goto_next()
@@ -1880,8 +1900,10 @@ class Stream(BaseStream):
         # first_rvalid = self.seq.Prev(first_renable, 1, cond=self.oready)
         # sink_value = self.seq.Prev(first_rvalid, delay, cond=self.oready)
         # return sink_value
+        self.sink_busy_stages = []
         for i in range(delay + 2):
             n = self.module.TmpReg(initval=0)
+            self.sink_busy_stages.append(n)
             self.seq.If(self.oready)(
                 n(v)
             )
-- 
2.43.0


From e7f2015e29d08f0dda751052d0f71db9b4beeebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 39/79] fix: sources and sinks of thread streams used in
 different modes

---
 veriloggen/thread/stream.py | 89 +++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 33 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index bb5f2ac..6c90663 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -199,6 +199,8 @@ class Stream(BaseStream):
         self.var_name_id_map[name] = _id
 
         var.source_fsm = None
+        var.source_fifo_fsm = None
+        var.source_kinds = set()
         var.source_pat_fsm = None
         var.source_multipat_fsm = None
         var.source_generator_fsms = []
@@ -322,6 +324,8 @@ class Stream(BaseStream):
         self.var_name_id_map[name] = _id
 
         data.sink_fsm = None
+        data.sink_fifo_fsm = None
+        data.sink_immediate_fsm = None
         data.sink_pat_fsm = None
         data.sink_multipat_fsm = None
         data.sink_generator_fsms = []
@@ -1013,7 +1017,7 @@ class Stream(BaseStream):
             return
 
         source_start = vtypes.Ands(self.source_start, self.oready,
-                                   vtypes.Not(vtypes.Uor(vtypes.And(var.source_mode, mode_idle))))
+                                   var.source_mode == mode_idle)
 
         self.seq.If(source_start)(
             var.source_idle(1)
@@ -1023,6 +1027,11 @@ class Stream(BaseStream):
         wenable = vtypes.Ands(source_start, self.is_root)
         var.write(wdata, wenable)
 
+        if var.source_kinds:
+            wenable = vtypes.Ands(self._source_wenable(var, 'empty'),
+                                  var.source_mode == mode_idle)
+            var.write(wdata, wenable)
+
         var.has_source_empty = True
 
     def set_sink(self, fsm, name, ram, offset, size, stride=1, port=0):
@@ -1851,7 +1860,7 @@ class Stream(BaseStream):
         self._hold_busy()
         fsm.If(vtypes.Not(self.source_busy)).goto_next()
 
-        fsm.If(self.busy).goto_next()
+        fsm.If(self.source_busy).goto_next()
 
         return 0
 
@@ -2056,6 +2065,20 @@ class Stream(BaseStream):
             vtypes.Display(fmt, dump_ram_step, age, addr, data)
         )
 
+    def _source_wenable(self, var, kind):
+        # the write synthesized later has the priority
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+
+        if kind == 'fifo' and var.source_kinds:
+            wenable = vtypes.Ands(wenable, var.source_mode == mode_fifo)
+        if kind == 'ram' and 'fifo' in var.source_kinds:
+            wenable = vtypes.Ands(wenable, vtypes.Not(var.source_mode == mode_fifo))
+        if kind == 'ram' and var.has_source_empty:
+            wenable = vtypes.Ands(wenable, vtypes.Not(var.source_mode == mode_idle))
+
+        var.source_kinds.add(kind)
+        return wenable
+
     def _synthesize_set_source(self, var, name):
         if var.source_fsm is not None:
             return
@@ -2071,7 +2094,7 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'ram')
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2176,7 +2199,7 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'ram')
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2347,7 +2370,7 @@ class Stream(BaseStream):
                 )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'ram')
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2474,7 +2497,7 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'ram')
         var.write(wdata, wenable)
 
         fsm_name = '_%s_source_generator_fsm_%d' % (prefix, generator_id)
@@ -2630,7 +2653,7 @@ class Stream(BaseStream):
         )
 
     def _synthesize_set_source_fifo(self, var, name):
-        if var.source_fsm is not None:
+        if var.source_fifo_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2642,7 +2665,7 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_fifo_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var, 'fifo')
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2651,34 +2674,34 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_source_fsm_%d' % (prefix, fsm_id)
-        var.source_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.source_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                              as_module=self.fsm_as_module)
 
-        var.source_fsm.If(source_start, self.oready).goto_next()
+        var.source_fifo_fsm.If(source_start, self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count(var.source_size_buf)
         )
 
-        var.source_fsm.If(self.oready).goto_next()
+        var.source_fifo_fsm.If(self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count.dec()
         )
-        self.seq.If(var.source_fsm.here, var.source_count == 1, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, var.source_count == 1, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(var.source_count == 1, self.oready).goto_init()
+        var.source_fifo_fsm.If(var.source_count == 1, self.oready).goto_init()
 
         # force flush
-        self.seq.If(var.source_fsm.here, self.source_stop, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.source_stop, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(self.source_stop, self.oready).goto_init()
+        var.source_fifo_fsm.If(self.source_stop, self.oready).goto_init()
 
     def _setup_sink_ram(self, ram, var, port, set_cond):
         if ram._id() in var.sink_id_map:
@@ -3302,7 +3325,7 @@ class Stream(BaseStream):
         )
 
     def _synthesize_set_sink_fifo(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_fifo_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3318,16 +3341,16 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_fifo_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, self.oready)(
             var.sink_count(var.sink_size),
             var.sink_size_buf(var.sink_size),
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_fifo_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3337,17 +3360,17 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, wcond, self.oready)(
             var.sink_fifo_wdata(rdata),
             var.sink_fifo_enq(1),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_fifo_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_fifo_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _synthesize_set_sink_immediate(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_immediate_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3363,15 +3386,15 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_immediate_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_immediate_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, self.oready)(
             var.sink_count(var.sink_size_buf)
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_immediate_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3381,13 +3404,13 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, wcond, self.oready)(
             var.sink_immediate(rdata),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_immediate_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_immediate_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _setup_read_ram(self, ram, var, port, set_cond):
         if ram._id() in var.read_ram_id_map:
-- 
2.43.0


From d72804a3e9a1b3c286efbf4040b82f4e79f375f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 40/79] fix: read-modify-write of a stream sees the two
 preceding writes

---
 veriloggen/stream/stypes.py | 34 ++++++++++++++++++++++++++++------
 veriloggen/thread/stream.py |  6 +++---
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index dcfe10c..de7390c 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -1920,8 +1920,9 @@ def Sync(*vars):
 class ForwardDest(_SpecialOperator):
     latency = 0
 
-    def __init__(self, value, index):
+    def __init__(self, value, index, distance=1):
         _SpecialOperator.__init__(self, value, index)
+        self.distance = distance
         self.graph_label = 'ForwardDest'
         self.graph_shape = 'box'
         self.forward_value = None
@@ -1952,16 +1953,36 @@ class ForwardDest(_SpecialOperator):
         self.forward_valid = m.Wire(self.name('forward_valid'))
 
         data = m.Wire(self.name('data'), width, signed=signed)
-        data.assign(vtypes.Mux(_and_vars(self.forward_valid, index == self.forward_index),
-                               self.forward_value, value))
+
+        # older writes, which are not visible in the value yet
+        forwards = [(self.forward_value, self.forward_index, self.forward_valid)]
+        for i in range(1, self.distance):
+            prev_value = m.Reg(self.name('forward_value_d%d' % i), width, initval=0,
+                               signed=signed)
+            prev_index = m.Reg(self.name('forward_index_d%d' % i), index_width, initval=0,
+                               signed=index_signed)
+            prev_valid = m.Reg(self.name('forward_valid_d%d' % i), initval=0)
+            seq(prev_value(forwards[-1][0]), prev_index(forwards[-1][1]),
+                prev_valid(forwards[-1][2]), cond=senable)
+            forwards.append((prev_value, prev_index, prev_valid))
+
+        for forward_value, forward_index, forward_valid in reversed(forwards):
+            value = vtypes.Mux(_and_vars(forward_valid, index == forward_index),
+                               forward_value, value)
+
+        data.assign(value)
         self.sig_data = data
 
 
 class ForwardSource(_SpecialOperator):
     latency = 0
 
-    def __init__(self, value, index, dest):
-        _SpecialOperator.__init__(self, value, index)
+    def __init__(self, value, index, dest, when=None):
+        args = [value, index]
+        if when is not None:
+            args.append(when)
+
+        _SpecialOperator.__init__(self, *args)
         self.dest = dest
 
         self.output_tmp()
@@ -1997,7 +2018,8 @@ class ForwardSource(_SpecialOperator):
 
         self.dest.forward_value.assign(value)
         self.dest.forward_index.assign(index)
-        self.dest.forward_valid.assign(svalid)
+        when_cond = self.args[2].sig_data if len(self.args) == 3 else None
+        self.dest.forward_valid.assign(_and_vars(svalid, when_cond))
 
 
 class Consumer(_SpecialOperator):
diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 6c90663..e6c074f 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -604,7 +604,7 @@ class Stream(BaseStream):
             read_vars.append(read_var)
             read_rams.append(read_name)
 
-        read_vars = [self.ForwardDest(read_var, raddr)
+        read_vars = [self.ForwardDest(read_var, raddr, 2)
                      for read_var, raddr in zip(read_vars, raddrs)]
 
         args = []
@@ -613,7 +613,7 @@ class Stream(BaseStream):
         write_var = op(*args)
 
         for read_var in read_vars:
-            self.ForwardSource(write_var, waddr, read_var)
+            self.ForwardSource(write_var, waddr, read_var, when)
 
         write_name = '_'.join([name, 'write'])
         write_var = self.write_RAM(write_name, waddr, write_var, when=when)
@@ -1539,7 +1539,7 @@ class Stream(BaseStream):
         read_rams, write_ram = var
 
         if read_ports is None:
-            read_ports = [i for i, read_ram in enumerate(read_ram)]
+            read_ports = [i for i, read_ram in enumerate(read_rams)]
 
         if write_port is None:
             write_port = read_ports[-1] + 1
-- 
2.43.0


From 6cfa99d893d2638aac30f6bcbde506fdc117ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:35 +0000
Subject: [PATCH 41/79] fix: multicycle substreams hold while the parent stream
 stalls

---
 veriloggen/stream/stypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index de7390c..3c6d323 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4138,7 +4138,7 @@ class SubstreamMultiCycle(Substream):
 
         cont = m.Reg(self.name('ii_cont'), initval=0)
 
-        seq.If(ii_count == 0, cont)(
+        seq.If(_and_vars(ii_count == 0, cont, senable))(
             ii_count.inc(),
             cont(0)
         )
-- 
2.43.0


From 73200df2cadd34997932f7c4eedce9ba55f898d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:59 +0000
Subject: [PATCH 42/79] fix: reset() restarts the numbering of multiply-add
 modules

---
 veriloggen/stream/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veriloggen/stream/stream.py b/veriloggen/stream/stream.py
index 638fd14..c474c4d 100644
--- a/veriloggen/stream/stream.py
+++ b/veriloggen/stream/stream.py
@@ -15,6 +15,7 @@ from veriloggen.seq.seq import Seq
 from . import visitor
 from . import stypes
 from . import mul
+from . import madd
 from . import scheduler
 from . import allocator
 from . import graph
@@ -29,6 +30,7 @@ def reset():
     _stream_counter = 0
     stypes._object_counter = 0
     mul.reset()
+    madd.reset()
 
 
 def StreamManager(module, clock, reset,
-- 
2.43.0


From 0a22a4d604bfd1dac29ba843953b2f9032dc05a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:59 +0000
Subject: [PATCH 43/79] fix: copy streams belong to a pair of RAMs and are
 forgotten at reset()

---
 veriloggen/thread/__init__.py | 12 +++++++-
 veriloggen/thread/ram.py      |  4 +++
 veriloggen/thread/util.py     | 58 +++++++++++++++++------------------
 3 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/veriloggen/thread/__init__.py b/veriloggen/thread/__init__.py
index acd6caa..8c4a76a 100644
--- a/veriloggen/thread/__init__.py
+++ b/veriloggen/thread/__init__.py
@@ -1,7 +1,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 
-from .thread import reset, embed_thread, Thread, TmpThread
+from .thread import embed_thread, Thread, TmpThread
 from .pool import ThreadPool, to_thread_pool
 from .stream import Stream, TmpStream
 
@@ -14,6 +14,16 @@ from .util import __intrinsics__ as __util_intrinsics__
 from .util import *
 
 from . import fixed
+from . import thread as _thread
+from . import ram as _ram
+from . import util as _util
+
+
+def reset():
+    _thread.reset()
+    _ram._reset()
+    _util._reset()
+
 
 __intrinsics__ = []
 __intrinsics__.extend(__ttypes_intrinsics__)
diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index a098bb1..1a9c99d 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -984,6 +984,10 @@ class _PackedMultibankRAM(MultibankRAM):
 multibank_ram_cache = {}
 
 
+def _reset():
+    multibank_ram_cache.clear()
+
+
 def to_multibank_ram(rams, name=None, keep_hierarchy=False):
     ids = tuple([ram._id() for ram in rams])
 
diff --git a/veriloggen/thread/util.py b/veriloggen/thread/util.py
index 6f57555..b1d3075 100644
--- a/veriloggen/thread/util.py
+++ b/veriloggen/thread/util.py
@@ -6,27 +6,40 @@ from . import stream
 __intrinsics__ = ('copy', 'copy_pattern')
 
 copy_stream_cache = {}
-copy_pattern_stream_cache = {}
 
 
-def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
-         src_stride=1, dst_stride=1,
-         src_port=0, dst_port=0):
+def _reset():
+    copy_stream_cache.clear()
+
+
+def _get_copy_stream(src_ram, dst_ram):
+    """ The stream between a pair of RAMs, shared by copy and copy_pattern """
+
+    key = (id(src_ram), id(dst_ram))
+
+    if key in copy_stream_cache:
+        return copy_stream_cache[key][0]
 
     name = '_'.join(['copy', src_ram.name, dst_ram.name])
+    m = src_ram.m
+    clk = src_ram.clk
+    rst = src_ram.rst
+    strm = stream.Stream(m, name, clk, rst)
+    src = strm.source('src')
+    dst = src
+    strm.sink(dst, 'dst')
+
+    # the entry keeps both RAMs alive, so that the key remains unique
+    copy_stream_cache[key] = (strm, src_ram, dst_ram)
 
-    if name in copy_stream_cache:
-        strm = copy_stream_cache[name]
+    return strm
 
-    else:
-        m = src_ram.m
-        clk = src_ram.clk
-        rst = src_ram.rst
-        strm = stream.Stream(m, name, clk, rst)
-        src = strm.source('src')
-        dst = src
-        strm.sink(dst, 'dst')
-        copy_stream_cache[name] = strm
+
+def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
+         src_stride=1, dst_stride=1,
+         src_port=0, dst_port=0):
+
+    strm = _get_copy_stream(src_ram, dst_ram)
 
     strm.set_source(fsm, 'src', src_ram, src_addr, size,
                     stride=src_stride, port=src_port)
@@ -40,20 +53,7 @@ def copy_pattern(fsm, src_ram, dst_ram, src_addr, dst_addr,
                  src_pattern, dst_pattern,
                  src_port=0, dst_port=0):
 
-    name = '_'.join(['copy', src_ram.name, dst_ram.name])
-
-    if name in copy_pattern_stream_cache:
-        strm = copy_pattern_stream_cache[name]
-
-    else:
-        m = src_ram.m
-        clk = src_ram.clk
-        rst = src_ram.rst
-        strm = stream.Stream(m, name, clk, rst)
-        src = strm.source('src')
-        dst = src
-        strm.sink(dst, 'dst')
-        copy_pattern_stream_cache[name] = strm
+    strm = _get_copy_stream(src_ram, dst_ram)
 
     strm.set_source_pattern(fsm, 'src', src_ram, src_addr, src_pattern,
                             port=src_port)
-- 
2.43.0


From f7e3a1ccaa5f5121b21321602a5b8ab1bc0aa0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:59 +0000
Subject: [PATCH 44/79] fix: a design with streams or dataflows has the same
 text each time it is emitted

---
 veriloggen/core/module.py       | 27 ++++++++++++++++++++++++++-
 veriloggen/dataflow/dataflow.py |  5 ++++-
 veriloggen/stream/stream.py     |  6 +++++-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index a43a4f5..a3f6c33 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -12,6 +12,15 @@ import veriloggen.core.task as task
 import veriloggen.core.rename_visitor as rename_visitor
 
 
+# Global counters that number what hooked methods create, as
+# (python module, attribute name, unique among all emitted modules or not)
+_hook_counters = []
+
+
+def add_hook_counter(obj, attr, unique=False):
+    _hook_counters.append((obj, attr, unique))
+
+
 class Module(vtypes.VeriloggenNode):
     """ Verilog Module class """
 
@@ -42,6 +51,7 @@ class Module(vtypes.VeriloggenNode):
         self.tmp_prefix = tmp_prefix
         self.tmp_count = 0
         self.hook = []
+        self.hook_counts = {}
         self.used = False
 
     # -------------------------------------------------------------------------
@@ -1226,7 +1236,22 @@ class Module(vtypes.VeriloggenNode):
         if not self.has_hook():
             return self
         copied = copy.deepcopy(self)
-        copied.resolve_hook()
+
+        # The copy is resolved with the same numbers every time.
+        saved = [getattr(obj, attr) for obj, attr, unique in _hook_counters]
+        for (obj, attr, unique), value in zip(_hook_counters, saved):
+            if unique:
+                key = (obj.__name__, attr)
+                setattr(obj, attr, self.hook_counts.setdefault(key, value))
+
+        try:
+            copied.resolve_hook()
+        finally:
+            for (obj, attr, unique), value in zip(_hook_counters, saved):
+                if unique:
+                    value = max(value, getattr(obj, attr))
+                setattr(obj, attr, value)
+
         return copied
 
     def resolve_hook(self):
diff --git a/veriloggen/dataflow/dataflow.py b/veriloggen/dataflow/dataflow.py
index 7874fc3..e1f1fc3 100644
--- a/veriloggen/dataflow/dataflow.py
+++ b/veriloggen/dataflow/dataflow.py
@@ -7,7 +7,7 @@ import collections
 import functools
 
 import veriloggen.core.vtypes as vtypes
-from veriloggen.core.module import Module
+from veriloggen.core.module import Module, add_hook_counter
 from veriloggen.seq.seq import Seq
 
 from . import visitor
@@ -21,6 +21,9 @@ from . import graph
 # ID counter for 'Dataflow'
 _dataflow_counter = 0
 
+add_hook_counter(dtypes, '_object_counter')
+add_hook_counter(mul, 'index_count', unique=True)
+
 
 def reset():
     global _dataflow_counter
diff --git a/veriloggen/stream/stream.py b/veriloggen/stream/stream.py
index c474c4d..d7ae26d 100644
--- a/veriloggen/stream/stream.py
+++ b/veriloggen/stream/stream.py
@@ -9,7 +9,7 @@ import functools
 from collections import OrderedDict
 
 import veriloggen.core.vtypes as vtypes
-from veriloggen.core.module import Module
+from veriloggen.core.module import Module, add_hook_counter
 from veriloggen.seq.seq import Seq
 
 from . import visitor
@@ -24,6 +24,10 @@ from . import graph
 # ID counter for 'Stream'
 _stream_counter = 0
 
+add_hook_counter(stypes, '_object_counter')
+add_hook_counter(mul, 'index_count', unique=True)
+add_hook_counter(madd, 'index_count', unique=True)
+
 
 def reset():
     global _stream_counter
-- 
2.43.0


From 735cea2f27cd6f9ef41eee45137ed5ad8adc4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 45/79] fix: task calls are emitted with their argument list

---
 veriloggen/verilog/to_verilog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 6e415c1..4eafc81 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -525,7 +525,10 @@ class VerilogCommonVisitor(object):
     def visit_TaskCall(self, node):
         name = vast.Identifier(node.name)
         args = tuple([self.visit(a) for a in node.args])
-        return vast.TaskCall(name, args)
+        # the code generator has no rule for TaskCall
+        if not args:
+            return name
+        return vast.FunctionCall(name, args)
 
     # -------------------------------------------------------------------------
     def visit_Instance(self, node):
-- 
2.43.0


From 116ff13fa689fa34f8a55dc3f9e4f4c5223f4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:41 +0000
Subject: [PATCH 46/79] fix: delays, waits and level events are emitted as
 written in every kind of block

---
 veriloggen/verilog/to_verilog.py | 58 +++++++++++++++++---------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 4eafc81..5d442ac 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -498,9 +498,34 @@ class VerilogCommonVisitor(object):
     def visit_Event(self, node):
         sensitivity = vast.SensList(
             tuple([self.visit(n) if isinstance(n, vtypes.Sensitive) else
-                   vast.Sens(self.visit(n)) for n in node.sensitivity]))
+                   vast.Sens(self.visit(n), 'level') for n in node.sensitivity]))
         return vast.EventStatement(sensitivity)
 
+    def visit_Forever(self, node):
+        if self.for_verilator:
+            return vast.SingleStatement(vast.SystemCall('write', (vast.StringConst(''),)))
+        statement = self._optimize_block(
+            vast.Block(tuple([self.visit(s) for s in node.statement])))
+        return vast.ForeverStatement(statement)
+
+    def visit_Wait(self, node):
+        cond = self.visit(node.condition)
+        if node.statement is None:
+            return vast.WaitStatement(cond, None)
+        statement = self._optimize_block(
+            vast.Block(tuple([self.visit(s) for s in node.statement])))
+        return vast.WaitStatement(cond, statement)
+
+    def visit_Posedge(self, node):
+        sig = self.visit(node.name)
+        t = 'posedge'
+        return vast.Sens(sig, t)
+
+    def visit_Negedge(self, node):
+        sig = self.visit(node.name)
+        t = 'negedge'
+        return vast.Sens(sig, t)
+
     def visit_Delay(self, node):
         if self.for_verilator:
             return vast.SingleStatement(vast.SystemCall('write', (vast.StringConst(''),)))
@@ -829,8 +854,10 @@ class VerilogAlwaysVisitor(VerilogCommonVisitor):
     def visit_Subst(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
-        ldelay = self.visit(node.ldelay) if node.ldelay else None
-        rdelay = self.visit(node.rdelay) if node.rdelay else None
+        ldelay = vast.DelayStatement(self.visit(
+            node.ldelay)) if node.ldelay else None
+        rdelay = vast.DelayStatement(self.visit(
+            node.rdelay)) if node.rdelay else None
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
         if node.blk:
@@ -851,28 +878,3 @@ class VerilogBlockingVisitor(VerilogCommonVisitor):
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
         return vast.BlockingSubstitution(lvalue, rvalue, ldelay, rdelay)
-
-    def visit_Forever(self, node):
-        if self.for_verilator:
-            return vast.SingleStatement(vast.SystemCall('write', (vast.StringConst(''),)))
-        statement = self._optimize_block(
-            vast.Block(tuple([self.visit(s) for s in node.statement])))
-        return vast.ForeverStatement(statement)
-
-    def visit_Wait(self, node):
-        cond = self.visit(node.condition)
-        if node.statement is None:
-            return vast.WaitStatement(cond, None)
-        statement = self._optimize_block(
-            vast.Block(tuple([self.visit(s) for s in node.statement])))
-        return vast.WaitStatement(cond, statement)
-
-    def visit_Posedge(self, node):
-        sig = self.visit(node.name)
-        t = 'posedge'
-        return vast.Sens(sig, t)
-
-    def visit_Negedge(self, node):
-        sig = self.visit(node.name)
-        t = 'negedge'
-        return vast.Sens(sig, t)
-- 
2.43.0


From 51e6e7315af5dd60bff490e3da2bd1b2bc865f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:13 +0000
Subject: [PATCH 47/79] fix: an instance of a renamed module keeps the modules
 of the other names

---
 veriloggen/core/module.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index a3f6c33..e3983a8 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -578,16 +578,13 @@ class Module(vtypes.VeriloggenNode):
         self.items.append(t)
 
         mod = self.find_module(module.name)
-        if mod is None:
-            self.submodule[module.name] = module
-
-        while mod is not None:
-            if mod == module:
-                break
+        while mod is not None and mod != module:
             module.name = module.name + '_'
-            self.submodule[module.name] = module
             mod = self.find_module(module.name)
 
+        if mod is None:
+            self.submodule[module.name] = module
+
         return t
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From 8d8bfde3c0da6ecdba9a6d87be4801553ff19d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:13 +0000
Subject: [PATCH 48/79] fix: excess and repeated instance arguments are
 rejected

---
 veriloggen/core/module.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index e3983a8..7c661d3 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1384,6 +1384,9 @@ class Instance(vtypes.VeriloggenNode):
                     raise ValueError("Illegal parameter argument")
             if not isinstance(module, Module) or isinstance(module, StubModule):
                 self.params = [(None, p) for p in params]
+            elif len(params) > len(module.global_constant):
+                raise ValueError("Too many parameters for module '%s'" %
+                                 module.name)
             else:
                 self.params = [(v.name, p) for v, p in zip(
                     module.global_constant.values(), params)]
@@ -1411,6 +1414,9 @@ class Instance(vtypes.VeriloggenNode):
                     raise ValueError("Illegal port argument")
             if not isinstance(module, Module) or isinstance(module, StubModule):
                 self.ports = [(None, p) for p in ports]
+            elif len(ports) > len(module.io_variable):
+                raise ValueError("Too many ports for module '%s'" %
+                                 module.name)
             else:
                 self.ports = [(v.name, p) for v, p in zip(
                     module.io_variable.values(), ports)]
@@ -1424,6 +1430,15 @@ class Instance(vtypes.VeriloggenNode):
                     raise ValueError("No such port '%s' in module '%s'" %
                                      (name, module.name))
 
+        self._duplication_check(self.params, 'Parameter')
+        self._duplication_check(self.ports, 'Port')
+
+    def _duplication_check(self, args, kind):
+        names = [name for name, _ in args if name is not None]
+        for name in names:
+            if names.count(name) > 1:
+                raise ValueError("%s '%s' is given twice." % (kind, name))
+
     def _type_check_module(self, module):
         if not isinstance(module, (Module, StubModule)):
             raise TypeError("module of Instance must be Module or StubModule, not %s" %
-- 
2.43.0


From 52ab3953c801fa4770c617e56937568e49067c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:01 +0000
Subject: [PATCH 49/79] fix: modules and hooks inside generate blocks, else
 branches included, are emitted

---
 veriloggen/core/module.py | 44 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 7c661d3..19040a3 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1259,31 +1259,39 @@ class Module(vtypes.VeriloggenNode):
                 kwargs = {}
             method(*args, **kwargs)
 
+        for gen in list(self.get_generates()):
+            gen.resolve_hook()
+
         for sub in self.submodule.values():
             sub.resolve_hook()
 
     def has_hook(self):
         if self.hook:
             return True
+        for gen in self.get_generates():
+            if gen.has_hook():
+                return True
         for sub in self.submodule.values():
             if sub.has_hook():
                 return True
         return False
 
+    # -------------------------------------------------------------------------
+    def get_generates(self):
+        for gen in self.generate.values():
+            for g in (gen if isinstance(gen, (tuple, list)) else (gen,)):
+                yield g
+                if isinstance(g, GenerateIf):
+                    yield g.Else
+
     # -------------------------------------------------------------------------
     def find_module(self, name):
         if name in self.submodule:
             return self.submodule[name]
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    r = g.find_module(name)
-                    if r is not None:
-                        return r
-            else:
-                r = gen.find_module(name)
-                if r is not None:
-                    return r
+        for gen in self.get_generates():
+            r = gen.find_module(name)
+            if r is not None:
+                return r
         for sub in self.submodule.values():
             r = sub.find_module(name)
             if r is not None:
@@ -1293,12 +1301,8 @@ class Module(vtypes.VeriloggenNode):
     def get_modules(self):
         modules = collections.OrderedDict()
         modules[self.name] = self
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    modules.update(g.get_modules())
-            else:
-                modules.update(gen.get_modules())
+        for gen in self.get_generates():
+            modules.update(gen.get_modules())
         for sub in self.submodule.values():
             modules.update(sub.get_modules())
         return modules
@@ -1486,12 +1490,8 @@ class Generate(Module):
 
     def get_modules(self):
         modules = collections.OrderedDict()
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    modules.update(g.get_modules())
-            else:
-                modules.update(gen.get_modules())
+        for gen in self.get_generates():
+            modules.update(gen.get_modules())
         for sub in self.submodule.values():
             modules.update(sub.get_modules())
         return modules
-- 
2.43.0


From 343d25c3e40d597fe1ae22fd42c64cc9cb97562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:51 +0000
Subject: [PATCH 50/79] fix: different modules of the same name are emitted
 under different names

---
 veriloggen/verilog/to_verilog.py | 94 +++++++++++++++++++++++++++++---
 1 file changed, 87 insertions(+), 7 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 5d442ac..2055142 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -15,15 +15,22 @@ from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
 # -------------------------------------------------------------------------
 def write_verilog(node, filename=None, for_verilator=False):
     visitor = VerilogModuleVisitor(for_verilator)
-    modules = tuple(node.get_modules().values())
+    original_names = make_unique_names(node)
 
-    module_ast_list = [visitor.visit(mod) for mod in modules
-                       if not isinstance(mod, module.StubModule)]
-    description = vast.Description(module_ast_list)
-    source = vast.Source(filename, description)
+    try:
+        modules = tuple(node.get_modules().values())
 
-    codegen = ASTCodeGenerator()
-    main = codegen.visit(source)
+        module_ast_list = [visitor.visit(mod) for mod in modules
+                           if not isinstance(mod, module.StubModule)]
+        description = vast.Description(module_ast_list)
+        source = vast.Source(filename, description)
+
+        codegen = ASTCodeGenerator()
+        main = codegen.visit(source)
+
+    finally:
+        for mod, name in original_names:
+            mod.name = name
 
     stub = [mod.get_code()
             for mod in modules if isinstance(mod, module.StubModule)]
@@ -36,6 +43,79 @@ def write_verilog(node, filename=None, for_verilator=False):
     return code
 
 
+# -------------------------------------------------------------------------
+def get_children(mod):
+    """ modules instantiated directly in the module """
+    if isinstance(mod, module.StubModule):
+        return []
+    ret = []
+    for gen in mod.get_generates():
+        ret.extend(get_children(gen))
+    ret.extend(mod.submodule.values())
+    return ret
+
+
+def make_unique_names(top):
+    """ give different names to the modules of same name and different
+    definitions, and return the renamed modules with the original names """
+    groups = collections.OrderedDict()
+    visited = set()
+
+    def collect(mod):
+        if id(mod) in visited:
+            return
+        visited.add(id(mod))
+        # a stub without code refers to the definition in another place
+        if not isinstance(mod, module.StubModule) or mod.get_code():
+            groups.setdefault(mod.name, []).append(mod)
+        for child in get_children(mod):
+            collect(child)
+
+    collect(top)
+
+    codes = {}
+
+    def get_definition(mod):
+        if isinstance(mod, module.StubModule):
+            return mod.get_code()
+        if id(mod) not in codes:
+            code = ASTCodeGenerator().visit(VerilogModuleVisitor().visit(mod))
+            codes[id(mod)] = (code, tuple([get_definition(child)
+                                           for child in get_children(mod)]))
+        return codes[id(mod)]
+
+    conflicts = []
+    for mods in groups.values():
+        if len(mods) == 1:
+            continue
+        firsts = []
+        for mod in mods:
+            for first in firsts:
+                if get_definition(mod) == get_definition(first):
+                    break
+            else:
+                first = mod
+                firsts.append(mod)
+            if first is not mods[0]:
+                conflicts.append((mod, first))
+
+    original_names = []
+    for mod, first in conflicts:
+        if isinstance(mod, module.StubModule):
+            raise ValueError("Module '%s' has different definitions." % mod.name)
+        original_names.append((mod, mod.name))
+        if mod is not first:
+            mod.name = first.name
+            continue
+        name = mod.name
+        while name in groups:
+            name = name + '_'
+        groups[name] = [mod]
+        mod.name = name
+
+    return original_names
+
+
 # -------------------------------------------------------------------------
 class VerilogCommonVisitor(object):
 
-- 
2.43.0


From 30812dd7b8332ef50fb2c329cf9640df80d61f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:02 +0000
Subject: [PATCH 51/79] fix: unconnected ports of an instance can be written

---
 veriloggen/verilog/to_verilog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 2055142..946d049 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -875,7 +875,7 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
         module = node.module.name
         parameterlist = [vast.ParamArg(
             p, self.bind_visitor.visit(a)) for p, a in node.params]
-        portlist = [vast.PortArg(p, self.bind_visitor.visit(a))
+        portlist = [vast.PortArg(p, self.bind_visitor.visit(a) if a is not None else None)
                     for p, a in node.ports]
         name = node.instname
         instance = vast.Instance(module, name, portlist, parameterlist)
-- 
2.43.0


From b57748273596dc25a1800290121bc381e8729924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:02 +0000
Subject: [PATCH 52/79] fix: temporary objects get names that are not in use

---
 veriloggen/core/module.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 19040a3..f61f9b5 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -109,7 +109,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Wire(name, width, dims, signed, value)
 
     def Reg(self, name, width=None, dims=None, signed=False, value=None,
@@ -127,7 +127,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Reg(name, width, dims, signed, value, initval)
 
     def Integer(self, name, width=None, dims=None, signed=False, value=None,
@@ -145,7 +145,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Integer(name, width, dims, signed, value, initval)
 
     def Real(self, name, width=None, dims=None, signed=False, value=None,
@@ -163,7 +163,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Real(name, width, dims, signed, value, initval)
 
     def Genvar(self, name, width=None, dims=None, signed=False, value=None):
@@ -179,7 +179,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Genvar(name, width, dims, signed, value)
 
     def Parameter(self, name, value, width=None, signed=False, dims=None):
@@ -203,7 +203,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Localparam(name, value, width, signed, dims)
 
     # -------------------------------------------------------------------------
@@ -1175,6 +1175,27 @@ class Module(vtypes.VeriloggenNode):
         self.tmp_count += 1
         return ret
 
+    def get_tmp_name(self, prefix):
+        while True:
+            name = '_'.join([prefix, str(self.get_tmp())])
+            if self.find_identifier(name) is None and not self.has_inner_identifier(name):
+                return name
+
+    def get_generates(self):
+        for gen in self.generate.values():
+            for g in (gen if isinstance(gen, (tuple, list)) else (gen,)):
+                yield g
+                if isinstance(g, GenerateIf):
+                    yield g.Else
+
+    def has_inner_identifier(self, name):
+        for gen in self.get_generates():
+            if Module.find_identifier(gen, name) is not None:
+                return True
+            if gen.has_inner_identifier(name):
+                return True
+        return False
+
     # -------------------------------------------------------------------------
     def is_input(self, name):
         if name not in self.io_variable:
-- 
2.43.0


From 6134a016600e25ec40049a7ff223a8157f74efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:02 +0000
Subject: [PATCH 53/79] fix: an object is declared once, also beside a port of
 the same name

---
 veriloggen/core/module.py        | 6 ++++--
 veriloggen/verilog/to_verilog.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index f61f9b5..4f4b5e3 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -97,8 +97,8 @@ class Module(vtypes.VeriloggenNode):
     def Wire(self, name, width=None, dims=None, signed=False, value=None):
 
         t = vtypes.Wire(width, dims, signed, value, name=name, module=self)
-        self.check_existing_identifier(name, vtypes.Input, vtypes.Output)
-        if self.is_reg(name):
+        self.check_existing_identifier(name, vtypes.Input, vtypes.Output, vtypes.Inout)
+        if name in self.variable:
             raise ValueError("Object '%s' is already defined." % name)
         self.variable[name] = t
         self.items.append(t)
@@ -118,6 +118,8 @@ class Module(vtypes.VeriloggenNode):
         t = vtypes.Reg(width, dims, signed, value,
                        initval, name=name, module=self)
         self.check_existing_identifier(name, vtypes.Output)
+        if name in self.variable:
+            raise ValueError("Object '%s' is already defined." % name)
         self.variable[name] = t
         self.items.append(t)
         return t
diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 946d049..071c48e 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -777,6 +777,8 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
 
     def visit_Wire(self, node):
         name = node.name
+        if name in self.module.io_variable and self.module.variable.get(name) is node:
+            return None
         width = self.make_width(node)
         dims = self.make_dims(node)
         signed = node.signed
-- 
2.43.0


From c638267cebdeec7f02268428344b4c73e755293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:03 +0000
Subject: [PATCH 54/79] fix: objects of the same name in a function or a task
 are rejected

---
 veriloggen/core/function.py | 7 +++++++
 veriloggen/core/task.py     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/veriloggen/core/function.py b/veriloggen/core/function.py
index 4ffdd16..342ff65 100644
--- a/veriloggen/core/function.py
+++ b/veriloggen/core/function.py
@@ -20,20 +20,27 @@ class Function(vtypes.VeriloggenNode):
         self.subst = []
 
     def Input(self, name, width=None, dims=None, signed=False, value=None):
+        self.check_existing_identifier(name, self.io_variable)
         t = vtypes.Input(width, dims, signed, value, name=name)
         self.io_variable[name] = t
         return t
 
     def Reg(self, name, width=None, dims=None, signed=False, value=None):
+        self.check_existing_identifier(name, self.variable)
         t = vtypes.Reg(width, dims, signed, value, name=name)
         self.variable[name] = t
         return t
 
     def Integer(self, name, width=None, dims=None, signed=False, value=None):
+        self.check_existing_identifier(name, self.variable)
         t = vtypes.Integer(width, dims, signed, value, name=name)
         self.variable[name] = t
         return t
 
+    def check_existing_identifier(self, name, variables):
+        if name == self.name or name in variables:
+            raise ValueError("Object '%s' is already defined." % name)
+
     def Body(self, *statement):
         if self.statement is not None:
             raise ValueError("Statement is already assigned.")
diff --git a/veriloggen/core/task.py b/veriloggen/core/task.py
index 190cd05..4bf18aa 100644
--- a/veriloggen/core/task.py
+++ b/veriloggen/core/task.py
@@ -17,20 +17,27 @@ class Task(vtypes.VeriloggenNode):
         self.statement = None
 
     def Input(self, name, width=None, dims=None, signed=False, value=None):
+        self.check_existing_identifier(name, self.io_variable)
         t = vtypes.Input(width, dims, signed, value, name=name)
         self.io_variable[name] = t
         return t
 
     def Reg(self, name, width=None, dims=None, signed=False, value=None):
+        self.check_existing_identifier(name, self.variable)
         t = vtypes.Reg(width, dims, signed, value, name=name)
         self.variable[name] = t
         return t
 
     def Integer(self, name, width=None, dims=None, signed=False, value=None):
+        self.check_existing_identifier(name, self.variable)
         t = vtypes.Integer(width, dims, signed, value, name=name)
         self.variable[name] = t
         return t
 
+    def check_existing_identifier(self, name, variables):
+        if name == self.name or name in variables:
+            raise ValueError("Object '%s' is already defined." % name)
+
     def Body(self, *statement):
         if self.statement is not None:
             raise ValueError("Statement is already assigned.")
-- 
2.43.0


From b2351d7d22144d06d028bb9e3e190612e020d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:56 +0000
Subject: [PATCH 55/79] fix: dimensions of copied ports and variables are kept
 and renamed

---
 veriloggen/core/module.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 4f4b5e3..6fd204a 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -818,6 +818,7 @@ class Module(vtypes.VeriloggenNode):
             copy_obj = copy.deepcopy(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
+            self.rename_dims(copy_obj, obj, visitor)
             copy_obj.signed = obj.signed
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
@@ -868,6 +869,7 @@ class Module(vtypes.VeriloggenNode):
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
             copy_obj.initval = visitor.visit(copy_obj.initval)
+            self.rename_dims(copy_obj, obj, visitor)
             copy_obj.signed = obj.signed
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
@@ -915,11 +917,19 @@ class Module(vtypes.VeriloggenNode):
             copy_obj = copy.deepcopy(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
+            self.rename_dims(copy_obj, obj, visitor)
             copy_obj.signed = obj.signed
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
         return ret
 
+    def rename_dims(self, copy_obj, src, visitor):
+        if src.dims is not None:
+            copy_obj.dims = tuple([visitor.visit(dim) for dim in src.dims])
+        if src.raw_dims is not None:
+            copy_obj.raw_dims = tuple([(visitor.visit(left), visitor.visit(right))
+                                       for left, right in src.raw_dims])
+
     def copy_sim_ports(self, src, prefix=None, postfix=None,
                        include=None, exclude=None, rename_exclude=None,
                        use_fullmatch=False, use_wire=False):
-- 
2.43.0


From facf36978fec6f45359e35b9b427602fbf68bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:56 +0000
Subject: [PATCH 56/79] fix: a submodule brings the constants its ports need
 and rejects unknown names

---
 veriloggen/core/collect_visitor.py |  4 ++++
 veriloggen/core/submodule.py       | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/veriloggen/core/collect_visitor.py b/veriloggen/core/collect_visitor.py
index 82dc5e9..cb5ac90 100644
--- a/veriloggen/core/collect_visitor.py
+++ b/veriloggen/core/collect_visitor.py
@@ -57,6 +57,10 @@ class CollectVisitor(object):
         self.visit(node.width)
         if hasattr(node, 'initval'):
             self.visit(node.initval)
+        if isinstance(node, (vtypes.Parameter, vtypes.Localparam)):
+            self.visit(node.value)
+        for dim in node.dims or ():
+            self.visit(dim)
 
     def visit_Pointer(self, node):
         self.visit(node.var)
diff --git a/veriloggen/core/submodule.py b/veriloggen/core/submodule.py
index a804f8f..827147b 100644
--- a/veriloggen/core/submodule.py
+++ b/veriloggen/core/submodule.py
@@ -49,6 +49,8 @@ class Submodule(vtypes.VeriloggenNode):
             len(arg_params) >= 1 and
             (not isinstance(arg_params[0], (tuple, list)) or
              len(arg_params[0]) == 1)):  # nonamed argument
+            if len(arg_params) > len(child_params):
+                raise ValueError("Too many parameters for submodule '%s'" % name)
             arg_params = [(cport, pport)
                           for cport, pport in zip(child_params.keys(), arg_params)]
 
@@ -64,6 +66,8 @@ class Submodule(vtypes.VeriloggenNode):
             len(arg_ports) >= 1 and
             (not isinstance(arg_ports[0], (tuple, list)) or
              len(arg_ports[0]) == 1)):  # nonamed argument
+            if len(arg_ports) > len(child_ports):
+                raise ValueError("Too many ports for submodule '%s'" % name)
             arg_ports = [(cport, pport)
                          for cport, pport in zip(child_ports.keys(), arg_ports)]
 
@@ -87,6 +91,16 @@ class Submodule(vtypes.VeriloggenNode):
         as_wire = [v.name if not isinstance(v, str) else
                    v for v in as_wire]
 
+        for key in arg_params.keys():
+            if key not in child_params:
+                raise ValueError("No such parameter '%s' in module '%s'" %
+                                 (key, child.name))
+
+        for key in arg_ports.keys():
+            if key not in child_ports:
+                raise ValueError("No such port '%s' in module '%s'" %
+                                 (key, child.name))
+
         # collect used parameters and localparameters
         collect_visitor = CollectVisitor()
 
-- 
2.43.0


From 941bede36887782ec72899485a4d45fec423062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:08 +0000
Subject: [PATCH 57/79] fix: objects copied over objects of the same name are
 rejected

---
 veriloggen/core/module.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 6fd204a..35d8a67 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1046,6 +1046,9 @@ class Module(vtypes.VeriloggenNode):
         if isinstance(obj, vtypes._Variable) and obj.name is None:
             raise ValueError("Object must have a name.")
 
+        if isinstance(obj, vtypes._Variable):
+            self.check_existing_object(obj)
+
         self.items.append(obj)
 
         if isinstance(obj, vtypes.AnyType):
@@ -1351,6 +1354,32 @@ class Module(vtypes.VeriloggenNode):
         if not isinstance(s, types):
             raise ValueError("Object '%s' is already defined." % name)
 
+    def check_existing_object(self, obj):
+        types = ()
+        if isinstance(obj, vtypes.AnyType):
+            return
+        if isinstance(obj, (vtypes.Input, vtypes.Inout)):
+            types = (vtypes.Wire,)
+        if isinstance(obj, vtypes.Output):
+            types = (vtypes.Wire, vtypes.Reg)
+        if isinstance(obj, vtypes.Wire):
+            types = (vtypes.Input, vtypes.Output, vtypes.Inout)
+        if isinstance(obj, vtypes.Reg):
+            types = (vtypes.Output,)
+
+        # a port or a parameter can be replaced
+        ports = (vtypes.Input, vtypes.Output, vtypes.Inout)
+        if isinstance(obj, ports):
+            types += ports
+        if isinstance(obj, vtypes.Parameter):
+            types += (vtypes.Parameter,)
+
+        for variables in (self.io_variable, self.variable, self.global_constant,
+                          self.local_constant, self.function, self.task, self.instance):
+            other = variables.get(obj.name)
+            if other is not None and not isinstance(other, (vtypes.AnyType,) + types):
+                raise ValueError("Object '%s' is already defined." % obj.name)
+
 
 class StubModule(vtypes.VeriloggenNode):
     """ Verilog Module class """
-- 
2.43.0


From fc435a40570db0d63c7156e1e7cf974f19e474c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:10 +0000
Subject: [PATCH 58/79] fix: a name hidden by a temporary object of a generate
 block is rejected

---
 veriloggen/core/module.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 35d8a67..6b05588 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -50,6 +50,7 @@ class Module(vtypes.VeriloggenNode):
 
         self.tmp_prefix = tmp_prefix
         self.tmp_count = 0
+        self.tmp_names = set()
         self.hook = []
         self.hook_counts = {}
         self.used = False
@@ -1194,6 +1195,7 @@ class Module(vtypes.VeriloggenNode):
         while True:
             name = '_'.join([prefix, str(self.get_tmp())])
             if self.find_identifier(name) is None and not self.has_inner_identifier(name):
+                self.tmp_names.add(name)
                 return name
 
     def get_generates(self):
@@ -1211,6 +1213,12 @@ class Module(vtypes.VeriloggenNode):
                 return True
         return False
 
+    def has_inner_tmp(self, name):
+        for gen in self.get_generates():
+            if name in gen.tmp_names or gen.has_inner_tmp(name):
+                return True
+        return False
+
     # -------------------------------------------------------------------------
     def is_input(self, name):
         if name not in self.io_variable:
@@ -1346,6 +1354,9 @@ class Module(vtypes.VeriloggenNode):
     def check_existing_identifier(self, name, *types):
         s = self.find_identifier(name)
         if s is None:
+            # it would be hidden by the temporary object in the generate block
+            if self.has_inner_tmp(name):
+                raise ValueError("Object '%s' is already defined." % name)
             return
         if isinstance(s, vtypes.AnyType):
             return
-- 
2.43.0


From 3c09680b0782e141439166abf4de2ddc913e1824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:30 +0000
Subject: [PATCH 59/79] fix: a constant defined as another constant follows its
 value

---
 veriloggen/core/vtypes.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index b851328..31bb162 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -751,8 +751,6 @@ class _ParameterVariable(_Variable):
 
     def __init__(self, value, width=None, signed=False, name=None,
                  raw_width=None, module=None):
-        if isinstance(value, _ParameterVariable):
-            value = value.value
         if value is None:
             raise ValueError('value must not be None.')
         _Variable.__init__(self, width=width, signed=signed, value=value, name=name,
-- 
2.43.0


From 19cac0d2e5de714180903a70c44bb5ba0849441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 60/79] fix: event and null statements can be imported

---
 veriloggen/verilog/from_verilog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 283ba86..164fdf9 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -718,7 +718,10 @@ class VerilogReadVisitor(object):
         return initial
 
     def visit_EventStatement(self, node):
-        sensitivity = self.visit(node.sens_list)
+        sensitivity = self.visit(node.senslist)
+        # the parser gives a null statement as an event of every signal
+        if any([isinstance(s, vtypes.SensitiveAll) for s in sensitivity]):
+            return ()
         event = vtypes.Event(*sensitivity)
         return event
 
-- 
2.43.0


From 2da1950992863941275b88de5a90c431245bea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 61/79] fix: statements that the importer would lose are
 imported or rejected

---
 veriloggen/verilog/from_verilog.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 164fdf9..dbb5693 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -503,6 +503,10 @@ class VerilogReadVisitor(object):
         right = self.visit(node.right)
         return vtypes.Sll(left, right)
 
+    def visit_Sla(self, node):
+        # the same operation as the logical shift
+        return self.visit_Sll(node)
+
     def visit_Srl(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
@@ -616,6 +620,9 @@ class VerilogReadVisitor(object):
         self.add_object(always)
         return always
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         return [self.visit(s) for s in node.list]
 
@@ -708,12 +715,23 @@ class VerilogReadVisitor(object):
         return when
 
     def visit_Block(self, node):
+        if not isinstance(self.m, module.Generate):
+            for statement in node.statements:
+                if isinstance(statement, vast.Decl):
+                    raise TypeError("Declaration in a block is not currently supported.")
         statements = [self.visit(statement) for statement in node.statements]
         return statements
 
     def visit_Initial(self, node):
+        # to avoid to call self.add_object() for the current Module
+        self.push_read_only_module()
+
         statement = to_tuple(self.visit(node.statement))
         initial = vtypes.Initial(*statement)
+
+        # to restore the current Module
+        self.pop_module()
+
         self.add_object(initial)
         return initial
 
@@ -931,6 +949,18 @@ class VerilogReadVisitor(object):
     def visit_PragmaEntry(self, node):
         raise TypeError("Pragma is not currently supported.")
 
+    def visit_CasezStatement(self, node):
+        raise TypeError("Casez is not currently supported.")
+
+    def visit_UniqueCaseStatement(self, node):
+        raise TypeError("Unique case is not currently supported.")
+
+    def visit_AlwaysComb(self, node):
+        raise TypeError("always_comb is not currently supported.")
+
+    def visit_AlwaysLatch(self, node):
+        raise TypeError("always_latch is not currently supported.")
+
     def visit_Disable(self, node):
         raise TypeError("Disable is not currently supported.")
 
-- 
2.43.0


From 5b042b6191c93b6e83a77a31efe32c9225787a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 62/79] fix: generate statements in an else branch of a
 generate-if are imported

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index dbb5693..9c624e9 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -659,7 +659,7 @@ class VerilogReadVisitor(object):
         return vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
 
     def visit_IfStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateIf(node)
         condition = self.visit(node.cond)
         true_statement = self.visit(node.true_statement)
@@ -675,7 +675,7 @@ class VerilogReadVisitor(object):
         return _if
 
     def visit_ForStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateFor(node)
         pre = self.visit(node.pre)
         condition = self.visit(node.cond)
-- 
2.43.0


From 66d76693bb1909c85c4f4f54d095eb8a70e697b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 63/79] fix: initial values in declarations are imported as
 initial values

---
 veriloggen/verilog/from_verilog.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 9c624e9..84a9cfe 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -405,7 +405,18 @@ class VerilogReadVisitor(object):
         return param
 
     def visit_Decl(self, node):
-        decl = [self.visit(d) for d in node.list]
+        decl = []
+        for d in node.list:
+            if (isinstance(d, vast.Assign) and decl and
+                isinstance(decl[-1], (vtypes.Reg, vtypes.Integer, vtypes.Real)) and
+                isinstance(d.left.var, vast.Identifier) and
+                    d.left.var.name == decl[-1].name):
+                # initial value of the variable
+                initial = vtypes.Initial(
+                    vtypes.Subst(decl[-1], self.visit(d.right), blk=True))
+                self.add_object(initial)
+                continue
+            decl.append(self.visit(d))
         return decl
 
     def visit_Concat(self, node):
-- 
2.43.0


From d80c749021efe0d705d696f380e143f5fcf396a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 64/79] fix: continuous assignments with delays can be imported

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 84a9cfe..7ac22f1 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -608,9 +608,9 @@ class VerilogReadVisitor(object):
         left = self.visit(node.left)
         right = self.visit(node.right)
         ldelay = self.visit(
-            node.ldelay.value) if node.ldelay is not None else None
+            node.ldelay.delay) if node.ldelay is not None else None
         rdelay = self.visit(
-            node.rdelay.value) if node.rdelay is not None else None
+            node.rdelay.delay) if node.rdelay is not None else None
         subst = vtypes.Subst(left, right, ldelay=ldelay, rdelay=rdelay)
         assign = vtypes.Assign(subst)
         self.add_object(assign)
-- 
2.43.0


From bc97272c0e8cadb66a43c0fcacb3f025440b9175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 65/79] fix: a signal assigned in both branches of a
 generate-if can be imported

---
 veriloggen/verilog/from_verilog.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 7ac22f1..e060816 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -918,6 +918,9 @@ class VerilogReadVisitor(object):
         statement = self.visit(item.true_statement)
         self.pop_module()
 
+        # both branches can assign the same objects
+        self.release_assigned(_if_true)
+
         _if_false = _if_true.Else(false_scope)
         self.add_object(_if_false)
         self.push_module(_if_false)
@@ -926,6 +929,16 @@ class VerilogReadVisitor(object):
         self.pop_module()
         return ret
 
+    def release_assigned(self, gen):
+        for item in gen.items:
+            if isinstance(item, module.Generate):
+                self.release_assigned(item)
+            if isinstance(item, vtypes.Assign):
+                left = item.statement.left
+                left.assign_value = None
+                if isinstance(left, vtypes.Wire):
+                    left.subst = []
+
     def visit_GenerateStatement(self, node):
         ret = []
         for item in node.items:
-- 
2.43.0


From 503323acffb32871bc3a9a23e6982a24f58dcbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:27 +0000
Subject: [PATCH 66/79] fix: bits of a word of an array can be selected

---
 veriloggen/core/vtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 31bb162..711e863 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -1697,7 +1697,7 @@ class Slice(_SpecialOperator):
         return module.Assign(self.write(value))
 
     def _type_check_var(self, var):
-        if not isinstance(var, (_Variable, Scope)):
+        if not isinstance(var, (_Variable, Scope, Pointer)):
             raise TypeError(
                 'var of Slice must be Variable, not %s' % str(type(var)))
 
-- 
2.43.0


From 458679ed2eeb09a3a8b6c1c6235e19234db573ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:28 +0000
Subject: [PATCH 67/79] fix: real constants can be imported

---
 veriloggen/verilog/from_verilog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index e060816..9194987 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -260,7 +260,7 @@ class VerilogReadVisitor(object):
         return vtypes.Int(node.value)
 
     def visit_FloatConst(self, node):
-        return vtypes.Float(node.value)
+        return vtypes.Float(float(node.value))
 
     def visit_StringConst(self, node):
         return vtypes.Str(node.value)
-- 
2.43.0


From c1e8b9a5fdd9e4cad181eecb892dfb3903d7e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:55 +0000
Subject: [PATCH 68/79] fix: delays of continuous assignments are rejected, not
 dropped

---
 veriloggen/verilog/to_verilog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 071c48e..1b16a32 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -839,6 +839,8 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
     def visit_Assign(self, node):
         if not isinstance(node.statement, vtypes.Subst):
             raise TypeError("Assign expects Subst object.")
+        if node.statement.ldelay is not None or node.statement.rdelay is not None:
+            raise ValueError("Delay of continuous assignment is not supported.")
         left = self.bind_visitor.visit(node.statement.left)
         right = self.bind_visitor.visit(node.statement.right)
         lvalue = vast.Lvalue(left)
-- 
2.43.0


From ea3595e63b0c57dd6a289bcfc0044d56e9f34b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:56 +0000
Subject: [PATCH 69/79] fix: imported nonblocking assignments of initial blocks
 and tasks stay nonblocking

---
 veriloggen/verilog/from_verilog.py | 4 +++-
 veriloggen/verilog/to_verilog.py   | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 9194987..819e261 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -667,7 +667,9 @@ class VerilogReadVisitor(object):
             node.ldelay.delay) if node.ldelay is not None else None
         rdelay = self.visit(
             node.rdelay.delay) if node.rdelay is not None else None
-        return vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
+        subst = vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
+        subst.nonblocking = True
+        return subst
 
     def visit_IfStatement(self, node):
         if isinstance(self.m, module.Generate):
diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 1b16a32..483f2eb 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -961,4 +961,7 @@ class VerilogBlockingVisitor(VerilogCommonVisitor):
             node.rdelay)) if node.rdelay else None
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
+        # imported one, to be left as it is
+        if getattr(node, 'nonblocking', False):
+            return vast.NonblockingSubstitution(lvalue, rvalue, ldelay, rdelay)
         return vast.BlockingSubstitution(lvalue, rvalue, ldelay, rdelay)
-- 
2.43.0


From 221839d167fdfdbf5bf8432e054d95bea0d415a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 70/79] fix: upper-case bases of literals and initial values of
 integers are imported

---
 veriloggen/core/vtypes.py          | 18 +++++++++---------
 veriloggen/verilog/from_verilog.py |  6 ++++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 711e863..0349c9d 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -26,7 +26,7 @@ def op2mark(op):
 
 def str_to_signed(s):
     targ = s.replace('_', '')
-    match = re.search(r's(.+)', targ)
+    match = re.search(r'[sS](.+)', targ)
     if match is not None:
         return True
     return False
@@ -60,7 +60,7 @@ def check_int_bin(v):
 def str_to_value(s):
     targ = s.replace('_', '')
 
-    match = re.search(r'h(.+)', targ)
+    match = re.search(r'[hH](.+)', targ)
     if match is not None:
         try:
             v = int(match.group(1), 16)
@@ -69,7 +69,7 @@ def str_to_value(s):
             check_int_hex(v)
         return v, 16
 
-    match = re.search(r'd(.+)', targ)
+    match = re.search(r'[dD](.+)', targ)
     if match is not None:
         try:
             v = int(match.group(1), 10)
@@ -78,7 +78,7 @@ def str_to_value(s):
             check_int_dec(v)
         return v, 10
 
-    match = re.search(r'o(.+)', targ)
+    match = re.search(r'[oO](.+)', targ)
     if match is not None:
         try:
             v = int(match.group(1), 8)
@@ -87,7 +87,7 @@ def str_to_value(s):
             check_int_oct(v)
         return v, 8
 
-    match = re.search(r'b(.+)', targ)
+    match = re.search(r'[bB](.+)', targ)
     if match is not None:
         try:
             v = int(match.group(1), 2)
@@ -106,16 +106,16 @@ def str_to_value(s):
 
 def str_to_width(s):
     targ = s.replace('_', '')
-    match = re.search(r'(.+)\'s?h.+', targ)
+    match = re.search(r'(.+)\'[sS]?[hH].+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'s?d.+', targ)
+    match = re.search(r'(.+)\'[sS]?[dD].+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'s?o.+', targ)
+    match = re.search(r'(.+)\'[sS]?[oO].+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'s?b.+', targ)
+    match = re.search(r'(.+)\'[sS]?[bB].+', targ)
     if match is not None:
         return int(match.group(1), 10)
     return None
diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 819e261..3a50daf 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -417,6 +417,12 @@ class VerilogReadVisitor(object):
                 self.add_object(initial)
                 continue
             decl.append(self.visit(d))
+            if (isinstance(d, (vast.Integer, vast.Real)) and
+                    getattr(d, 'value', None) is not None):
+                # initial value of the variable
+                initial = vtypes.Initial(
+                    vtypes.Subst(decl[-1], self.visit(d.value), blk=True))
+                self.add_object(initial)
         return decl
 
     def visit_Concat(self, node):
-- 
2.43.0


From 38b68c2025d391dcb8650f96465d42ac1faf1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:18 +0000
Subject: [PATCH 71/79] fix: dataflow selection and comparison align operands
 of different points; custom operators of one operand

---
 veriloggen/dataflow/dtypes.py | 53 +++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index f66d2a4..689b691 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -571,6 +571,10 @@ class _BinaryOperator(_Operator):
         self._set_module(getattr(self.df, 'module', None))
         self._set_seq(getattr(self.df, 'seq', None))
 
+    def _adjust_operands(self, m, lpoint, rpoint, signed):
+        return fx.adjust(self.left.sig_data, self.right.sig_data,
+                         lpoint, rpoint, signed)
+
     def _implement(self, m, seq):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -589,8 +593,7 @@ class _BinaryOperator(_Operator):
         lpoint = self.left.get_point()
         rpoint = self.right.get_point()
 
-        ldata, rdata = fx.adjust(
-            self.left.sig_data, self.right.sig_data, lpoint, rpoint, signed)
+        ldata, rdata = self._adjust_operands(m, lpoint, rpoint, signed)
 
         lvalid = self.left.sig_valid
         rvalid = self.right.sig_valid
@@ -1113,7 +1116,28 @@ def Div(left, right):
     return Divide(left, right)
 
 
-class LessThan(_BinaryOperator):
+class _BinaryCompareOperator(_BinaryOperator):
+
+    def _adjust_operands(self, m, lpoint, rpoint, signed):
+        if lpoint == rpoint:
+            return self.left.sig_data, self.right.sig_data
+
+        # The aligned operand needs more bits than its source
+        point = max(lpoint, rpoint)
+        ret = []
+        for name, node in (('left', self.left), ('right', self.right)):
+            data = node.sig_data
+            diff = point - node.get_point()
+            if diff > 0:
+                aligned = m.Wire(self.name(name), node.get_width() + diff,
+                                 signed=node.get_signed())
+                aligned.assign(fx.shift_left(data, diff))
+                data = aligned
+            ret.append(data)
+        return tuple(ret)
+
+
+class LessThan(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1124,7 +1148,7 @@ class LessThan(_BinaryOperator):
         return self.left.eval() < self.right.eval()
 
 
-class GreaterThan(_BinaryOperator):
+class GreaterThan(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1135,7 +1159,7 @@ class GreaterThan(_BinaryOperator):
         return self.left.eval() > self.right.eval()
 
 
-class LessEq(_BinaryOperator):
+class LessEq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1146,7 +1170,7 @@ class LessEq(_BinaryOperator):
         return self.left.eval() <= self.right.eval()
 
 
-class GreaterEq(_BinaryOperator):
+class GreaterEq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1157,7 +1181,7 @@ class GreaterEq(_BinaryOperator):
         return self.left.eval() >= self.right.eval()
 
 
-class Eq(_BinaryOperator):
+class Eq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1168,7 +1192,7 @@ class Eq(_BinaryOperator):
         return self.left.eval() == self.right.eval()
 
 
-class NotEq(_BinaryOperator):
+class NotEq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1601,9 +1625,9 @@ class _SpecialOperator(_Operator):
 
     def _set_attributes(self):
         wargs = [arg.get_width() for arg in self.args]
-        self.width = max(*wargs)
+        self.width = max(wargs)
         pargs = [arg.get_point() for arg in self.args]
-        self.point = max(*pargs)
+        self.point = max(pargs)
         self.signed = False
         for arg in self.args:
             if arg.get_signed():
@@ -1819,7 +1843,7 @@ class Cond(_SpecialOperator):
 
     def __init__(self, condition, true_value, false_value):
         _SpecialOperator.__init__(self, condition, true_value, false_value)
-        self.op = vtypes.Cond
+        self.op = self._select
 
     def _set_attributes(self):
         true_value_fp = self.true_value.get_point()
@@ -1831,6 +1855,13 @@ class Cond(_SpecialOperator):
         self.point = max(true_value_fp, false_value_fp)
         self.signed = self.true_value.get_signed() or self.false_value.get_signed()
 
+    def _select(self, condition, true_value, false_value):
+        true_value, false_value = fx.adjust(true_value, false_value,
+                                            self.true_value.get_point(),
+                                            self.false_value.get_point(),
+                                            self.signed)
+        return vtypes.Cond(condition, true_value, false_value)
+
     @property
     def condition(self):
         return self.args[0]
-- 
2.43.0


From 3d06ace3227a34a708f5c985a39eb9abef7fca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:08 +0000
Subject: [PATCH 72/79] fix: pipeline stages keep their unary operators;
 accumulators count as a stage

---
 veriloggen/pipeline/pipeline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index e62d544..081939e 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -195,6 +195,9 @@ class Pipeline(vtypes.VeriloggenNode):
 
         self.vars.append(ret)
 
+        if next_stage_id is not None and next_stage_id > self.max_stage_id:
+            self.max_stage_id = next_stage_id
+
         return ret
 
     # -------------------------------------------------------------------------
@@ -613,7 +616,9 @@ class DataVisitor(_PipelineVisitor):
         return stage, cls(*data), valid, ready
 
     def visit__UnaryOperator(self, node):
-        return self.visit(node.right)
+        stage, data, valid, ready = self.pack(node.right)
+        cls = type(node)
+        return stage, cls(*data), valid, ready
 
     def visit_Pointer(self, node):
         stage, data, valid, ready = self.pack(node.var, node.pos)
-- 
2.43.0


From d0d04fbe53ca006e5acffe613073d698fd7ed62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:02 +0000
Subject: [PATCH 73/79] fix: a negative literal under a unary operator is
 written in parentheses

---
 veriloggen/verilog/to_verilog.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 483f2eb..bcc5a57 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -406,44 +406,51 @@ class VerilogCommonVisitor(object):
         return vast.Lor(left, right)
 
     # -------------------------------------------------------------------------
+    def _visit_unary_right(self, right):
+        right = self.visit(right)
+        # a sign directly after another operator is not a legal operand
+        if isinstance(right, (vast.IntConst, vast.FloatConst)) and right.value.startswith('-'):
+            right = type(right)('(' + right.value + ')')
+        return right
+
     def visit_Uplus(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Uplus(right)
 
     def visit_Uminus(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Uminus(right)
 
     def visit_Ulnot(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Ulnot(right)
 
     def visit_Unot(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Unot(right)
 
     def visit_Uand(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Uand(right)
 
     def visit_Unand(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Unand(right)
 
     def visit_Uor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Uor(right)
 
     def visit_Unor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Unor(right)
 
     def visit_Uxor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Uxor(right)
 
     def visit_Uxnor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_right(node.right)
         return vast.Uxnor(right)
 
    # ---------------------------------------------------------------------------
-- 
2.43.0


From 7a55ebf2372e59ec8ee295a4d1be5c4756c1d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:02 +0000
Subject: [PATCH 74/79] fix: fixed-point comparisons are plain
 signed-ness-preserving bits and assign/connect align the point once

---
 veriloggen/types/fixed.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/veriloggen/types/fixed.py b/veriloggen/types/fixed.py
index c6f7de4..a7ecc48 100644
--- a/veriloggen/types/fixed.py
+++ b/veriloggen/types/fixed.py
@@ -154,7 +154,7 @@ def fixed_to_int(value, point):
     return shift_right(value, point, signed)
 
 
-def _fixed_to_int_reg_point(value, point):
+def _fixed_to_int_neg_point(value, point):
     point = -point
 
     if isinstance(value, (int, bool, float)) and isinstance(point, int):
@@ -392,9 +392,6 @@ class _FixedVariable(_FixedBase, vtypes._Variable):
     def write_raw(self, value, blk=False, ldelay=None, rdelay=None):
         return vtypes._Variable.write(self, value, blk=blk, ldelay=ldelay, rdelay=rdelay)
 
-    def assign(self, value):
-        v = self._adjust(value)
-        return vtypes._Variable.assign(self, v)
 
     def assign_raw(self, value):
         if self.module is None:
@@ -402,9 +399,6 @@ class _FixedVariable(_FixedBase, vtypes._Variable):
                 "Variable '%s' has no parent module information" % self.name)
         return self.module.Assign(self.write_raw(value))
 
-    def connect(self, value):
-        v = self._adjust(value)
-        return vtypes._Variable.connect(self, v)
 
 
 class _FixedInput(_FixedVariable, vtypes.Input):
@@ -584,16 +578,29 @@ class _FixedSra(_FixedBinaryShiftOperator, vtypes.Sra):
         vtypes.Sra.__init__(self, left, right)
 
 
-class _FixedLessThan(_FixedBinaryOperator, vtypes.LessThan):
+class _FixedCompareOperator(_FixedBinaryOperator):
+    ast_name = None
+    __hash__ = _FixedBinaryOperator.__hash__
+
+    def init(self, left, right):
+        ldata, rdata = _FixedBinaryOperator.init(self, left, right)
+        self.point = 0
+        return ldata, rdata
+
+    @property
+    def int_part(self):
+        return self
+
+
+class _FixedLessThan(_FixedCompareOperator, vtypes.LessThan):
     ast_name = 'LessThan'
-    overwrite_signed = True
 
     def __init__(self, left, right):
         left, right = self.init(left, right)
         vtypes.LessThan.__init__(self, left, right)
 
 
-class _FixedGreaterThan(_FixedBinaryOperator, vtypes.GreaterThan):
+class _FixedGreaterThan(_FixedCompareOperator, vtypes.GreaterThan):
     ast_name = 'GreaterThan'
 
     def __init__(self, left, right):
@@ -601,7 +608,7 @@ class _FixedGreaterThan(_FixedBinaryOperator, vtypes.GreaterThan):
         vtypes.GreaterThan.__init__(self, left, right)
 
 
-class _FixedLessEq(_FixedBinaryOperator, vtypes.LessEq):
+class _FixedLessEq(_FixedCompareOperator, vtypes.LessEq):
     ast_name = 'LessEq'
 
     def __init__(self, left, right):
@@ -609,7 +616,7 @@ class _FixedLessEq(_FixedBinaryOperator, vtypes.LessEq):
         vtypes.LessEq.__init__(self, left, right)
 
 
-class _FixedGreaterEq(_FixedBinaryOperator, vtypes.GreaterEq):
+class _FixedGreaterEq(_FixedCompareOperator, vtypes.GreaterEq):
     ast_name = 'GreaterEq'
 
     def __init__(self, left, right):
@@ -617,7 +624,7 @@ class _FixedGreaterEq(_FixedBinaryOperator, vtypes.GreaterEq):
         vtypes.GreaterEq.__init__(self, left, right)
 
 
-class _FixedEq(_FixedBinaryOperator, vtypes.Eq):
+class _FixedEq(_FixedCompareOperator, vtypes.Eq):
     ast_name = 'Eq'
 
     def __init__(self, left, right):
@@ -625,7 +632,7 @@ class _FixedEq(_FixedBinaryOperator, vtypes.Eq):
         vtypes.Eq.__init__(self, left, right)
 
 
-class _FixedNotEq(_FixedBinaryOperator, vtypes.NotEq):
+class _FixedNotEq(_FixedCompareOperator, vtypes.NotEq):
     ast_name = 'NotEq'
 
     def __init__(self, left, right):
-- 
2.43.0


From 6c1c5e3187e9be0ecfbfd776e275d8c8b2461258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:02 +0000
Subject: [PATCH 75/79] fix: saturating subtraction respects its upper limit
 and a nonzero lower limit

---
 veriloggen/types/saturate.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/veriloggen/types/saturate.py b/veriloggen/types/saturate.py
index 1c9893b..c68da0b 100644
--- a/veriloggen/types/saturate.py
+++ b/veriloggen/types/saturate.py
@@ -110,6 +110,17 @@ def _sub(raw_val, left, right, width=8, max=None, min=None):
         return _saturate_both(raw_val, cond,
                               width=width, max=max, min=min, signed=signed)
 
+    if not isinstance(min, int) or min != 0:
+        # 'right + min' would wrap around
+        cond = vtypes.Lor(left < right, raw_val < min)
+
+    # the difference is never larger than the minuend
+    left_width = vtypes.get_width(left)
+    if not (max is None and isinstance(left_width, int) and
+            isinstance(width, int) and left_width <= width):
+        return _saturate_both(raw_val, cond,
+                              width=width, max=max, min=min, signed=signed)
+
     return _saturate_underflow(raw_val, cond,
                                width=width, min=min, signed=signed)
 
-- 
2.43.0


From 26652cec3c4aae3c62906144a22a95a8a136d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:37 +0000
Subject: [PATCH 76/79] fix: '>>' of a fixed-point value in a thread keeps the
 point

---
 veriloggen/thread/operator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/operator.py b/veriloggen/thread/operator.py
index b6f6a5a..537d851 100644
--- a/veriloggen/thread/operator.py
+++ b/veriloggen/thread/operator.py
@@ -5,6 +5,14 @@ import os
 import ast
 
 import veriloggen.core.vtypes as vtypes
+import veriloggen.types.fixed as fxd
+
+
+def _sra(left, right):
+    if isinstance(left, fxd._FixedBase):
+        return left >> right  # keeps the point
+    return vtypes.Sra(left, right)
+
 
 operators = {
     ast.Add: vtypes.Plus,
@@ -14,7 +22,7 @@ operators = {
     ast.Mod: vtypes.Mod,
     ast.Pow: vtypes.Power,
     ast.LShift: vtypes.Sll,
-    ast.RShift: vtypes.Sra,
+    ast.RShift: _sra,
     ast.BitOr: vtypes.Or,
     ast.BitXor: vtypes.Xor,
     ast.BitAnd: vtypes.And,
-- 
2.43.0


From eb57b5bb89e586b7c73d24ef1b331f873dcd4de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:37 +0000
Subject: [PATCH 77/79] fix: fixed-point conversions: float constant and
 integer part at point 0, unsigned values to real, thread-level fixed_to_real

---
 veriloggen/thread/fixed.py | 4 +++-
 veriloggen/types/fixed.py  | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/fixed.py b/veriloggen/thread/fixed.py
index 931529e..4e2bf8c 100644
--- a/veriloggen/thread/fixed.py
+++ b/veriloggen/thread/fixed.py
@@ -53,4 +53,6 @@ def fixed_to_int(fsm, value, point):
 def fixed_to_real(fsm, value, point, signed=True):
     point = vtypes.raw_value(point)
     signed = vtypes.raw_value(signed)
-    return fxd.fixed_to_real(value, point, signed)
+    if vtypes.get_signed(value) != signed:
+        value = reinterpret_cast_to_fixed(fsm, value, point, signed)
+    return fxd.fixed_to_real(value, point)
diff --git a/veriloggen/types/fixed.py b/veriloggen/types/fixed.py
index a7ecc48..f345fc9 100644
--- a/veriloggen/types/fixed.py
+++ b/veriloggen/types/fixed.py
@@ -99,7 +99,7 @@ def to_fixed(value, point):
         return _to_fixed_neg_point(value, point)
 
     if point == 0:
-        return value
+        return int(value) if isinstance(value, float) else value
 
     if isinstance(value, (int, bool, float)) and isinstance(point, int):
         mag = 2 ** point
@@ -140,7 +140,7 @@ def fixed_to_int(value, point):
         return _fixed_to_int_neg_point(value, point)
 
     if point == 0:
-        return value
+        return value.int_part if isinstance(value, _FixedBase) else value
 
     if isinstance(value, (int, bool, float)) and isinstance(point, int):
         mag = 2 ** point
@@ -212,7 +212,10 @@ def fixed_to_real(value, point):
            vtypes.SystemTask('itor', fixed_to_int_low(nv, point)) /
            vtypes.SystemTask('itor', vtypes.Int(2) ** point))) * vtypes.SystemTask('itor', -1)
 
-    return vtypes.Mux(signed and msb == 0, v0, v1)
+    if not signed:
+        return v0
+
+    return vtypes.Mux(msb == 0, v0, v1)
 
 
 def to_signed(value):
-- 
2.43.0


From b5ab7a3c56c95a859284d308f7734ebecf62883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:37 +0000
Subject: [PATCH 78/79] fix: a FixedRAM or FixedFIFO stores narrower or shifted
 signed values with their sign

---
 veriloggen/thread/fifo.py |  4 ++--
 veriloggen/thread/ram.py  |  2 +-
 veriloggen/types/fixed.py | 18 ++++++++++++++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/fifo.py b/veriloggen/thread/fifo.py
index 472346d..3eb635e 100644
--- a/veriloggen/thread/fifo.py
+++ b/veriloggen/thread/fifo.py
@@ -293,7 +293,7 @@ class FixedFIFO(FIFO):
         if raw:
             fixed_wdata = wdata
         else:
-            fixed_wdata = fxd.write_adjust(wdata, self.point)
+            fixed_wdata = fxd.write_data(self.m, wdata, self.point, self.datawidth)
 
         return FIFO.enq(self, fsm, fixed_wdata)
 
@@ -308,7 +308,7 @@ class FixedFIFO(FIFO):
         if raw:
             fixed_wdata = wdata
         else:
-            fixed_wdata = fxd.write_adjust(wdata, self.point)
+            fixed_wdata = fxd.write_data(self.m, wdata, self.point, self.datawidth)
 
         return FIFO.try_enq(self, fsm, fixed_wdata)
 
diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index 1a9c99d..6baad3c 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -352,7 +352,7 @@ class FixedRAM(RAM):
         if raw:
             fixed_wdata = wdata
         else:
-            fixed_wdata = fxd.write_adjust(wdata, self.point)
+            fixed_wdata = fxd.write_data(self.m, wdata, self.point, self.datawidth)
 
         return RAM.write(self, fsm, addr, fixed_wdata, port, cond)
 
diff --git a/veriloggen/types/fixed.py b/veriloggen/types/fixed.py
index f345fc9..06a65b9 100644
--- a/veriloggen/types/fixed.py
+++ b/veriloggen/types/fixed.py
@@ -256,6 +256,24 @@ def write_adjust(value, point):
     return v
 
 
+def write_data(m, value, point, width):
+    """ value to be stored in a 'width'-bit storage via selectors """
+    data = write_adjust(value, point)
+
+    if not isinstance(value, _FixedBase) or not vtypes.get_signed(value):
+        return data
+
+    value_width = vtypes.get_width(value)
+    if (isinstance(value_width, int) and isinstance(width, int) and
+            value_width >= width and value.point <= point):
+        return data
+
+    # selectors do not keep the sign, so that the value is extended in advance
+    v = FixedTmpWire(m, width=width, point=point)
+    v.assign_raw(data)
+    return v
+
+
 def shift_left(value, size, signed=True):
     if isinstance(value, vtypes.Int):
         value = value.value
-- 
2.43.0


From 198e62390fcf00bbe49b9b9b16790fa22dee2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:44 +0000
Subject: [PATCH 79/79] fix: a counter is reset by any nonzero value of a wider
 reset

---
 veriloggen/stream/stypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 3c6d323..83163a2 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3652,7 +3652,8 @@ class Counter(_Accumulator):
 
         reset_cond = m.Wire(self.name('reset_cond'))
         if self.reset is not None:
-            reset_cond.assign(resetdata)
+            reset_cond.assign(vtypes.NotEq(resetdata, 0)
+                              if self.reset.get_width() > 1 else resetdata)
             current_count = m.WireLike(count, name=self.name('current_count'))
             current_count.assign(vtypes.Mux(reset_cond, initval_data, count))
         else:
-- 
2.43.0

