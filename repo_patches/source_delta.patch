From 49196238eeb0888f2dbfbe38a5194d472b6cebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 01/74] fix: int + and * with a complex right operand crashed

`x + (y * z)` and `2 * (x + y)` raised TypeError because the compiler
argument was not passed on.
---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8bfe8c7..f5fa968 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -558,7 +558,7 @@ class IntOpGroup(AcaciaExpr):
     def _r_add_mul(self, name: str, other, compiler):
         # a (+ or *) b is b (+ or *) a
         if isinstance(other, (IntLiteral, IntVar)):
-            return getattr(self, name)(other)
+            return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
     def _r_sub_div_mod(self, other, name, compiler):
-- 
2.43.0


From 46cc3fd3de2b8da0a327d241619e638e647bbf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 02/74] fix: unary minus on a run-time int crashed

The compiler argument was not passed to the multiplication.
---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index f5fa968..afbef31 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -527,7 +527,7 @@ class IntOpGroup(AcaciaExpr):
 
     def unaryneg(self, compiler):
         # -expr = expr * (-1)
-        return self.mul(compiler.add_int_const(-1))
+        return self.mul(compiler.add_int_const(-1), compiler)
 
     ## BINARY (SELF ... OTHER) OPERATORS
 
-- 
2.43.0


From e01bd6952f2e44c30981632fcfc7fc0d51268289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 03/74] fix: augmented assignment of a complex int expression
 was refused

`x += a + b` was reported as an invalid operand.
---
 acaciamc/objects/integer.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index afbef31..e0626df 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -65,10 +65,6 @@ STR2SCBOP = {
     ">": cmds.ScbOp.MAX,
     "=": cmds.ScbOp.ASSIGN
 }
-STR2METHOD = {
-    '+': "add", '-': "sub",
-    '*': "mul", '/': "div", '%': "mod"
-}
 COMPOP2SCBOP = {
     Operator.greater: cmds.ScbCompareOp.GT,
     Operator.greater_equal: cmds.ScbCompareOp.GTE,
@@ -351,13 +347,11 @@ class IntVar(VarValue):
         """Implementation for augmented assigns where `other` is
         `IntOpGroup`. `operator` is "+", "-", etc.
         """
-        # In this condition, we convert a (op)= b to a = a (op) b
-        ## Calculate
-        value = getattr(self, STR2METHOD[operator])(other, compiler)
-        ## Export
-        tmp = IntVar.new(compiler, tmp=True)
-        res = value.export(tmp, compiler)
-        res.extend(tmp.export(self))
+        # Calculate `other` first, then apply the operator in place.
+        res, tmp = to_IntVar(other, compiler)
+        res.append(cmds.ScbOperation(
+            STR2SCBOP[operator], self.slot, tmp.slot
+        ))
         return res
 
     iadd = partialmethod(_iadd_sub, '+')
-- 
2.43.0


From 4b12e1a9c61259ab134f028240813142c8849461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 04/74] fix: if/else ran both branches when the first one
 changed its condition

---
 acaciamc/mccmdgen/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 03766b8..d8193a4 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -407,8 +407,12 @@ class Generator(ASTVisitor):
             )
             return
         # Fallback
-        dep, condition_var = to_BoolVar(condition, self.compiler, tmp=False)
-        self.current_file.extend(dep)
+        # Always take a copy of the condition, since running the "then"
+        # branch may change the variable that the condition refers to.
+        condition_var = BoolVar.new(self.compiler)
+        self.current_file.extend(
+            condition.export(condition_var, self.compiler)
+        )
         if has_then:
             self.current_file.write(cmds.Execute(
                 [cmds.ExecuteScoreMatch(condition_var.slot, "1")],
-- 
2.43.0


From c3f29600a76ce4d44167651fdbe1d0c2cf4e6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 05/74] fix: calls in a while condition were only run before
 the first iteration

---
 acaciamc/mccmdgen/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index d8193a4..57d6fa2 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -426,7 +426,12 @@ class Generator(ASTVisitor):
 
     def visit_While(self, node: While):
         # condition
-        condition: AcaciaExpr = self.visit(node.condition)
+        # Commands that evaluate the condition have to run before every
+        # iteration, so they are collected separately.
+        cond_file = cmds.MCFunctionFile()
+        with self.set_mcfunc_file(cond_file):
+            condition: AcaciaExpr = self.visit(node.condition)
+        self.current_file.extend(cond_file.commands)
         if not condition.data_type.matches_cls(BoolDataType):
             self.error_c(ErrorType.WRONG_WHILE_CONDITION,
                          got=str(condition.data_type))
@@ -436,6 +441,7 @@ class Generator(ASTVisitor):
             body_file.write_debug('## Part 1. Body')
             for stmt in node.body:
                 self.visit(stmt)
+            body_file.extend(cond_file.commands)
         # process condition
         if isinstance(condition, BoolLiteral):
             # optimize when condition is known at compile time
-- 
2.43.0


From 81015946449ff433982702596047dcef2c3c28f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 06/74] fix: comparing a bool constant with another type
 crashed

---
 acaciamc/objects/boolean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c28d029..f9f5395 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -162,6 +162,7 @@ class BoolLiteral(ConstExprCombined):
         true = self.value == (op is Operator.equal_to)
         if self.data_type.is_type_of(other):
             return other if true else other.unarynot(compiler)
+        raise InvalidOpError
 
     def ccompare(self, op: Operator, other: "CTObj"):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
-- 
2.43.0


From 4d7aa0cc20c5258611350beb51314d0b4bd4ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 07/74] fix: comparing a bool with an or-expression on the
 right was refused

---
 acaciamc/objects/boolean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index f9f5395..ba5ea36 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -64,7 +64,7 @@ def _bool_compare(self: AcaciaExpr, op: Operator, other: AcaciaExpr, compiler):
     elif isinstance(other, NotBoolVar):
         slot2 = other.slot
         invert = not invert
-    elif isinstance(other, (CompareBase, WildBool)):
+    elif isinstance(other, (CompareBase, WildBool, NotWildBool)):
         _dep, other_var = to_BoolVar(other, compiler)
         dep.extend(_dep)
         slot2 = other_var.slot
-- 
2.43.0


From ce5a01b79ca6410fcbf2dec475f1443ea7102d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 08/74] fix: contradicting nested and-groups made an empty
 score range

---
 acaciamc/objects/boolean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index ba5ea36..df44486 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -441,6 +441,8 @@ def new_and_group(operands: List[AcaciaExpr], compiler) -> AcaciaExpr:
                 rng = ranges.setdefault(slot, [INT_MIN, INT_MAX])
                 rng[0] = max(min_, rng[0])
                 rng[1] = min(max_, rng[1])
+                if rng[0] > rng[1]:  # must be False
+                    return BoolLiteral(False)
             operand = None
         elif isinstance(operand, NotWildBool):
             # `a and not (b and c)` needs a tmp var:
-- 
2.43.0


From b962571f3e811d2d2a126e68be64a93cc2c1681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 09/74] fix: comparisons beyond the extreme integers used
 out-of-range literals

---
 acaciamc/objects/boolean.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index df44486..d16ea8b 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -289,10 +289,18 @@ class ScbMatchesCompare(CompareBase):
 
     def as_execute(self, compiler) -> Tuple[CMDLIST_T, List["_ExecuteSubcmd"]]:
         res = []
+        # `> INT_MAX` and `< INT_MIN` need inverted ranges since the
+        # neighbouring integer does not fit in 32 bits.
         match_range = {
-            Operator.greater: '%d..' % (self.literal + 1),
+            Operator.greater: (
+                '%d..' % (self.literal + 1) if self.literal < INT_MAX
+                else '!..%d' % self.literal
+            ),
             Operator.greater_equal: '%d..' % self.literal,
-            Operator.less: '..%d' % (self.literal - 1),
+            Operator.less: (
+                '..%d' % (self.literal - 1) if self.literal > INT_MIN
+                else '!%d..' % self.literal
+            ),
             Operator.less_equal: '..%d' % self.literal,
             Operator.equal_to: str(self.literal),
             Operator.unequal_to: '!%d' % self.literal
-- 
2.43.0


From 3f981fd75f05a8a32083255b9987e32d7580fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 10/74] fix: constructing a struct from its own fields mixed
 old and new values

---
 acaciamc/objects/struct_template.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 71ef4a7..99d1e37 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -64,9 +64,23 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
         ])
         def _call_me(compiler, **fields: Optional[AcaciaExpr]):
             commands = []
-            for name, value in fields.items():
-                if value is None:
-                    continue
+            given = {name: value for name, value in fields.items()
+                     if value is not None}
+            # Values may refer to other fields of `instance`
+            # (e.g. `s = S(a=s.b, b=s.a)`), so every value must be
+            # evaluated before the first field is overwritten.
+            # Constants refer to nothing and can simply be set last.
+            rt_names = [name for name, value in given.items()
+                        if not isinstance(value, ConstExpr)]
+            for name in rt_names[:-1]:
+                value = given[name]
+                tmp = self.field_types[name].new_var(compiler)
+                commands.extend(value.export(tmp, compiler))
+                given[name] = tmp
+            for name in reversed(rt_names):
+                value = given.pop(name)
+                commands.extend(value.export(instance.vars[name], compiler))
+            for name, value in given.items():
                 commands.extend(value.export(instance.vars[name], compiler))
             return resultlib.commands(commands)
         _, c = BinaryFunction(_call_me).call(args, keywords, compiler)
-- 
2.43.0


From eeab86d495d7a3672cf97a9bad63d86918ee333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 11/74] fix: reporting a duplicated struct field crashed

---
 acaciamc/mccmdgen/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 57d6fa2..82a2470 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -932,7 +932,7 @@ class Generator(ASTVisitor):
             if isinstance(decl, StructField):
                 name, type_ = res
                 if name in fields:
-                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, name=name)
+                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, attr=name)
                 fields[name] = type_
             else:
                 assert isinstance(decl, Pass)
-- 
2.43.0


From 4c9865754a0cc1d73c83f60a41320855e0579d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 12/74] fix: list.range and list.slice with step 0 crashed

---
 acaciamc/lang/en_US.lang  | 6 ++++++
 acaciamc/objects/list_.py | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index b8cd93a..3178502 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -422,6 +422,12 @@ objects.entityfilter.hasitem.slot = should be None when slot_type is None
 
 objects.externegroup.resolve = <resolve of %s>
 
+### objects/list_.py ###
+
+## step ##
+
+objects.list.step.zero = must not be 0
+
 ### objects/functions.py ###
 
 ## BinaryFunction (and others) ##
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index bb0b0c7..fc038cb 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -17,6 +17,7 @@ from .types import Type
 from .integer import IntDataType, IntLiteral
 from acaciamc.tools import axe, cmethod_of
 from acaciamc.error import *
+from acaciamc.localization import localize
 from acaciamc.mccmdgen.expr import *
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTObj, CTObjPtr, CTDataType
@@ -31,6 +32,10 @@ class ListDataType(DefaultDataType):
 ctdt_constlist = CTDataType("const_list")
 ctdt_list = CTDataType("list", (ctdt_constlist,))
 
+def _check_step(step: int):
+    if step == 0:
+        raise axe.ArgumentError("step", localize("objects.list.step.zero"))
+
 class ListType(Type):
     def do_init(self):
         @cmethod_of(self, "range")
@@ -56,6 +61,7 @@ class ListType(Type):
             @axe.arg("stop", axe.LiteralInt())
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start: int, stop: int, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "__new__")
         @axe.chop
@@ -128,6 +134,7 @@ class AcaciaList(ConstExpr):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
@@ -205,6 +212,7 @@ class CTConstList(CTObj):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
-- 
2.43.0


From be7101d8320d48049374a80e4d8e62657401f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 13/74] fix: result outside of a function crashed

---
 acaciamc/mccmdgen/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 82a2470..35b477e 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -942,6 +942,8 @@ class Generator(ASTVisitor):
         ))
 
     def visit_Result(self, node: Result):
+        if self.ctx.function_state == FUNC_NONE:
+            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
         rt = self.ctx.current_function.result_type
         def _check(t: "DataType"):
             if rt is not None and not rt.matches(t):
@@ -994,8 +996,7 @@ class Generator(ASTVisitor):
                     self.error_c(ErrorType.RESULT_NOT_CONST)
                 self.ctx.inline_result = value
         else:
-            assert self.ctx.function_state == FUNC_NONE
-            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
+            unreachable()
 
     def visit_NewCall(self, node: NewCall):
         if self.ctx.entity_new_data is None:
-- 
2.43.0


From cb91fad4b22989f93ad645b918b98cd5afe976ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 14/74] fix: result inside a for loop of an inline function was
 lost

---
 acaciamc/mccmdgen/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 35b477e..b672f15 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -893,6 +893,9 @@ class Generator(ASTVisitor):
                     self.register_symbol(node.name, value)
                     for stmt in node.body:
                         self.visit(stmt)
+                    inline_result = self.ctx.inline_result
+                # The body may have set result of an inline function.
+                self.ctx.inline_result = inline_result
         else:
             assert isinstance(iterable, EntityGroup)
             with self.new_mcfunc_file() as body_file, \
@@ -905,6 +908,8 @@ class Generator(ASTVisitor):
                 self.register_symbol(node.name, this)
                 for stmt in node.body:
                     self.visit(stmt)
+                inline_result = self.ctx.inline_result
+            self.ctx.inline_result = inline_result
             self.write_debug("Entity group iteration at %s"
                              % body_file.get_path())
             self.current_file.write(cmds.Execute(
-- 
2.43.0


From 0f57323ce549596dd191d1dd4eba95f99fa85686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 15/74] fix: non-identifiers were accepted as argument names

---
 acaciamc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/parser.py b/acaciamc/parser.py
index 41f886e..b04ddab 100644
--- a/acaciamc/parser.py
+++ b/acaciamc/parser.py
@@ -937,7 +937,7 @@ class Parser:
             qualifier = self._func_port_qualifier(allowed_ports)
             # read name
             name = self.current_token.value
-            self.eat()  # eat identifier
+            self.eat(TokenType.identifier)
             # read type
             type_ = None
             if self.current_token.type is TokenType.colon:
-- 
2.43.0


From 7a74bc49eb0f8e92c6496bc906cdd4563bc1243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 16/74] fix: int -, / and % with a complex right operand were
 refused

---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index e0626df..c768114 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -555,7 +555,7 @@ class IntOpGroup(AcaciaExpr):
             return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
-    def _r_sub_div_mod(self, other, name, compiler):
+    def _r_sub_div_mod(self, name: str, other, compiler):
         # Convert `other` to `IntOpGroup` and use this to handle this
         # operation.
         if isinstance(other, (IntLiteral, IntVar)):
-- 
2.43.0


From 3ac9d85947783c24121f9776b9db0fbeebd0f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 17/74] fix: a called function overwrote temporary values of
 its caller

---
 acaciamc/compiler.py           | 10 ++++++++++
 acaciamc/mccmdgen/generator.py |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ab6c4e3..192bbcf 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -273,6 +273,16 @@ class Compiler:
         """
         self._free_tmp_score.append(slot)
 
+    @contextmanager
+    def separate_tmp(self):
+        """Make sure temporary vars allocated in this context are not
+        shared with the code outside.
+        """
+        old_free = self._free_tmp_score
+        self._free_tmp_score = []
+        yield
+        self._free_tmp_score = old_free
+
     def add_int_const(self, value: int) -> IntVar:
         """Sometimes a constant is needed when calculating in MC
         e.g. `a * 2`, we need a score to store 2, so that we can use
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index b672f15..7eac4fa 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -597,7 +597,8 @@ class Generator(ASTVisitor):
 
     @contextlib.contextmanager
     def _in_noninline_func(self, func: AcaciaFunction):
-        with self.new_ctx():
+        # The caller may be using temporary scores when it calls us
+        with self.new_ctx(), self.compiler.separate_tmp():
             self.ctx.new_scope()
             self.ctx.current_function = func
             self.ctx.function_state = FUNC_NORMAL
-- 
2.43.0


From cf5e62e6aa54d3f3d13a82831063f31bf56c8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 18/74] fix: fields reached through two references to one
 entity were not seen as aliases

---
 acaciamc/mccmdgen/cmds.py   | 36 +++++++++++++++++++++++++-----------
 acaciamc/modules/math.py    |  2 +-
 acaciamc/objects/boolean.py |  6 ++++++
 acaciamc/objects/integer.py |  2 +-
 4 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 33069a3..0bdd491 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -42,6 +42,20 @@ class ScbSlot(NamedTuple):
             mc_str(self.objective)
         )
 
+    def is_selector(self) -> bool:
+        """Return if which score this refers to depends on entities."""
+        return self.target.startswith("@") or self.target == "*"
+
+    def overlaps(self, other: "ScbSlot") -> bool:
+        """Return if the two slots might refer to the same score."""
+        if self.objective != other.objective:
+            return False
+        return (
+            self.target == other.target
+            or self.target == "*" or other.target == "*"
+            or (self.is_selector() and other.is_selector())
+        )
+
 class Command(metaclass=ABCMeta):
 
     is_debug = False  # only write when -d is set
@@ -93,7 +107,7 @@ class ScbSetConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.overlaps(self.target)
 
 class ScbAddConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -106,7 +120,7 @@ class ScbAddConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.overlaps(self.target)
 
 class ScbRemoveConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -119,7 +133,7 @@ class ScbRemoveConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.overlaps(self.target)
 
 class ScbOp(Enum):
     ADD_EQ = "+="
@@ -147,15 +161,15 @@ class ScbOperation(Command):
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return slot.overlaps(self.operand1) or slot.overlaps(self.operand2)
         else:
-            return slot == self.operand1
+            return slot.overlaps(self.operand1)
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return slot.overlaps(self.operand1) or slot.overlaps(self.operand2)
         else:
-            return slot == self.operand2
+            return slot.overlaps(self.operand2)
 
 class ScbRandom(Command):
     def __init__(self, target: ScbSlot, min_: int, max_: int):
@@ -170,7 +184,7 @@ class ScbRandom(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.overlaps(self.target)
 
 class ScbObjAdd(Command):
     def __init__(self, name: str, display_name: Optional[str] = None):
@@ -377,7 +391,7 @@ class ExecuteScoreComp(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand1 or slot == self.operand2
+        return slot.overlaps(self.operand1) or slot.overlaps(self.operand2)
 
     def resolve(self) -> str:
         return "%s score %s %s %s" % (
@@ -395,7 +409,7 @@ class ExecuteScoreMatch(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand
+        return slot.overlaps(self.operand)
 
     def resolve(self) -> str:
         return "%s score %s matches %s" % (
@@ -549,7 +563,7 @@ class RawtextOutput(Command):
         )
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot in self.score_slots
+        return any(slot.overlaps(s) for s in self.score_slots)
 
 class TitlerawTimes(Command):
     def __init__(self, player: str, fade_in: int, stay: int, fade_out: int):
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 4a448fc..e555c04 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -36,7 +36,7 @@ class IntXOpSelf(IntOp):
         self.x = x
 
     def scb_did_assign(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.x
+        return slot.overlaps(self.x)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(STR2SCBOP[self.op], self.x, var.slot)]
diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index d16ea8b..956cff7 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -236,6 +236,12 @@ class NotBoolVar(AcaciaExpr):
                 cmds.Execute([cmds.ExecuteScoreMatch(var.slot, "2")],
                              cmds.ScbSetConst(var.slot, 0))
             ]
+        elif var.slot.overlaps(self.slot):
+            # Might be negation of self; copy the value first
+            return [
+                cmds.ScbOperation(cmds.ScbOp.ASSIGN, var.slot, self.slot),
+                *NotBoolVar(var.slot).export(var, compiler)
+            ]
         else:
             return [
                 cmds.ScbSetConst(var.slot, 0),
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index c768114..d62ebb3 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -419,7 +419,7 @@ class IntOpVar(IntOp):
         self.slot = slot
 
     def scb_did_read(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.slot
+        return slot.overlaps(self.slot)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(self.op, var.slot, self.slot)]
-- 
2.43.0


From 58c7d4164cbb6f197c8666d62dc3fcd72f705948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 19/74] fix: inlining re-evaluated conditions that the inlined
 commands change

---
 acaciamc/mccmdgen/cmds.py      | 29 +++++++++++++++++++----------
 acaciamc/mccmdgen/optimizer.py |  3 +++
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 0bdd491..4d85da4 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -82,20 +82,29 @@ class Cmd(Command):
     def __init__(self, cmd: str, suppress_special_cmd=False):
         self.value = cmd
         # Read command name
-        if cmd and not suppress_special_cmd:
-            for i, char in enumerate(cmd):
-                if char in TERMINATOR_CHARS:
-                    break
-            name = cmd[:i]
-            if name in ("scoreboard", "schedule", "execute", "function",
-                        "tellraw", "titleraw"):
-                raise ValueError(
-                    "/%s command need to be invoked by special class" % name
-                )
+        name = cmd.lstrip()
+        for i, char in enumerate(name):
+            if char in TERMINATOR_CHARS:
+                name = name[:i]
+                break
+        # Is this a command that can access scores?
+        self.is_special = name in (
+            "scoreboard", "schedule", "execute", "function",
+            "tellraw", "titleraw"
+        )
+        if self.is_special and not suppress_special_cmd:
+            raise ValueError(
+                "/%s command need to be invoked by special class" % name
+            )
 
     def resolve(self) -> str:
         return self.value
 
+    def scb_did_assign(self, slot: ScbSlot) -> bool:
+        # A special command here is written by user; it might write
+        # to any score.
+        return self.is_special
+
 class ScbSetConst(Command):
     def __init__(self, target: ScbSlot, value: int):
         self.target = target
diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 8345daf..b102fbf 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -125,6 +125,9 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                     slots.add(subcmd.operand)
                 else:
                     unreachable()
+            if any(slot.is_selector() for slot in slots):
+                # The commands might change which entity is selected
+                return True
             for command in commands:
                 for slot in slots:
                     if command.scb_did_assign(slot):
-- 
2.43.0


From c10122c0536328c634eba5b2c9dd6fb932346bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 20/74] fix: the order of optimized functions depended on
 object addresses

---
 acaciamc/mccmdgen/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index b102fbf..6f1964f 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -41,7 +41,7 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                 _visit(ref)
         for file in self.entry_files():
             _visit(file)
-        self.files = list(visited)
+        self.files = [file for file in self.files if file in visited]
 
     @property
     @abstractmethod
-- 
2.43.0


From cb7e602816644c0ec8bde9f382fdb4d81709930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 21/74] fix: init and main file of the same name overwrote each
 other

---
 acaciamc/cli.py          | 5 +++++
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 6 insertions(+)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index e5423b4..22c86fc 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -159,6 +159,11 @@ def get_config(args) -> Config:
         if args.init_file is not _NOTGIVEN:
             assert_id(args.init_file, '--init-file')
             kwds["init_file"] = args.init_file
+        # Make sure that the two files don't overwrite each other
+        main_file = kwds.get("main_file", Config().main_file)
+        init_file = kwds.get("init_file", Config().init_file)
+        if main_file.lower() == init_file.lower():
+            fatal(localize("cli.getconfig.sameinitfile") % init_file)
     if args.internal_folder:
         assert_id(args.internal_folder, '--internal-folder')
         kwds["internal_folder"] = args.internal_folder
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 3178502..43f4fb1 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -88,6 +88,7 @@ cli.getconfig.invalidfunctionfolder = invalid name {name} in function folder pat
 cli.getconfig.invalidmcversion = invalid Minecraft version: %s
 cli.getconfig.mcversiontooold = Minecraft version is too low: %s, at least 1.19.50 expected
 cli.getconfig.maxinlinetoolow = max inline file size must >= 0: %s
+cli.getconfig.sameinitfile = init file must not have the same name as main file: %s
 
 ## try_rmtree ##
 
-- 
2.43.0


From e02ac5e6a173b35b8c0ef36f90eaa23c90949af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 22/74] fix: which of two same-named module files is used
 depended on directory order

---
 acaciamc/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 192bbcf..9d0c0b7 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -342,7 +342,7 @@ class Compiler:
                 # meaning this `root` is invalid; continue
                 continue
             ## Step 3
-            for child in os.listdir(final):
+            for child in sorted(os.listdir(final)):
                 path = os.path.join(final, child)
                 if not os.path.isfile(path):
                     continue
-- 
2.43.0


From a2f91b46d9d609d8ebd590a6a8e815dfc80df663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 23/74] fix: interface paths with . or .. escaped the output
 folder

---
 acaciamc/error.py              | 1 +
 acaciamc/lang/en_US.lang       | 1 +
 acaciamc/mccmdgen/generator.py | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/acaciamc/error.py b/acaciamc/error.py
index fabea2c..b027698 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -146,6 +146,7 @@ class ErrorType(LocalizedEnum):
     INTERFACE_PATH_SLASH_START = "error.errortype.interfacepathslashstart"
     INTERFACE_PATH_SLASH_END = "error.errortype.interfacepathslashend"
     INTERFACE_PATH_DOUBLE_SLASH = "error.errortype.interfacepathdoubleslash"
+    INTERFACE_PATH_DOTS = "error.errortype.interfacepathdots"
     INTERFACE_PATH_INVALID_CHAR = "error.errortype.interfacepathinvalidchar"
     # Compiler
     IO = "error.errortype.io"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 43f4fb1..cbca6d2 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -219,6 +219,7 @@ error.errortype.duplicateinterface = Multiple definitions of interface: {path}
 error.errortype.interfacepathslashstart = An interface path cannot start with a slash
 error.errortype.interfacepathslashend = An interface path cannot end with a slash
 error.errortype.interfacepathdoubleslash = Double slashes found in interface path
+error.errortype.interfacepathdots = "." and ".." are not allowed as a part of interface path
 error.errortype.interfacepathempty = Empty interface path
 error.errortype.interfacepathinvalidchar = Invalid character {char!r} in interface path
 error.errortype.io = I/O Error: {message}
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 7eac4fa..7d5133a 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -484,6 +484,8 @@ class Generator(ASTVisitor):
             self.error_c(ErrorType.INTERFACE_PATH_SLASH_END)
         if '//' in path:
             self.error_c(ErrorType.INTERFACE_PATH_DOUBLE_SLASH)
+        if any(part in (".", "..") for part in path.split("/")):
+            self.error_c(ErrorType.INTERFACE_PATH_DOTS)
         for c in path:
             if c not in FUNCTION_PATH_CHARS:
                 self.error_c(ErrorType.INTERFACE_PATH_INVALID_CHAR, char=c)
-- 
2.43.0


From d0bbbeb01c2c4e57170f1f34709bdc9c3955f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 24/74] fix: two virtual method calls in one expression shared
 one result

---
 acaciamc/objects/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f228af1..ba44e28 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -513,11 +513,15 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         file = cmds.MCFunctionFile()
         self.files.append((args, keywords, file))
         compiler.add_file(file)
-        return self.result_var, [
+        # Make a copy of `result_var`, since another call may change it
+        result = self.result_var.data_type.new_var(compiler)
+        result.is_temporary = True
+        return result, [
             cmds.Execute(
                 [cmds.ExecuteEnv("as", self.object.to_str())],
                 cmds.InvokeFunction(file)
-            )
+            ),
+            *self.result_var.export(result, compiler)
         ]
 
     def _generate(self, compiler: "Compiler"):
-- 
2.43.0


From a7baa7ea312227d87063dc7d8ea13f11e7f3395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 25/74] fix: overridden inline virtual methods could not be
 called

---
 acaciamc/objects/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index ba44e28..11cf7fc 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -555,7 +555,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 file.extend(_call_bm(args, keywords, only_bm))
                 continue
             # Fallback
-            for impl, (_, templates, get_self_var) in self.impls.items():
+            for bm, templates, get_self_var in self.impls.values():
                 file.write_debug(
                     "# For %s"
                     % (", ".join(template.name for template in templates))
@@ -565,7 +565,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, impl)
+                commands = _call_bm(args, keywords, bm)
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From bceb904068b10f808fecb8ba7c751f38181a4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:29 +0000
Subject: [PATCH 26/74] fix: virtual method dispatchers lost the position of
 the call

---
 acaciamc/compiler.py          | 28 +++++++++++++++++++++++++++-
 acaciamc/objects/functions.py | 32 ++++++++++++++++++--------------
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 9d0c0b7..ec31ca3 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -6,7 +6,8 @@ It assembles files and classes together and writes output.
 __all__ = ['Compiler', 'Config']
 
 from typing import (
-    Tuple, Union, Optional, Callable, Dict, NamedTuple, List, TYPE_CHECKING
+    Tuple, Union, Optional, Callable, Dict, NamedTuple, List, ContextManager,
+    TYPE_CHECKING
 )
 import os
 from contextlib import contextmanager
@@ -311,6 +312,31 @@ class Compiler:
         """Add a callback before compilation finishes."""
         self._before_finish_cbs.append(callback)
 
+    def save_position(self) -> Callable[[], ContextManager[None]]:
+        """Return a context manager factory that makes the code in its
+        context (usually in a `before_finish` callback) compile as if it
+        were at the position that is being compiled now.
+        """
+        generator = self.current_generator
+        node = generator.processing_node
+        file = self._current_file
+        @contextmanager
+        def restore():
+            old = self.current_generator, self._current_file
+            old_node = generator.processing_node
+            self.current_generator, self._current_file = generator, file
+            generator.processing_node = node
+            try:
+                with self.separate_tmp():
+                    yield
+            except Error as err:
+                if not err.location.linecol_set():
+                    self.raise_error(err)
+                raise
+            self.current_generator, self._current_file = old
+            generator.processing_node = old_node
+        return restore
+
     def find_module(self, meta: ModuleMeta) -> Union[str, None]:
         """Find a module.
         Return path of module or None is not found
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 11cf7fc..5fcb3b1 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -53,7 +53,7 @@ __all__ = [
 
 from typing import (
     TYPE_CHECKING, List, Dict, Union, Callable, Tuple, Optional, Generic,
-    TypeVar, Any
+    TypeVar, Any, ContextManager
 )
 from abc import abstractmethod
 
@@ -492,8 +492,10 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 _BoundMethod, List["EntityTemplate"],
                 Optional[Callable[[], "TaggedEntity"]]
             ]] = {}
-        self.files: \
-            List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile]] = []
+        self.files: List[Tuple[
+            ARGS_T, KEYWORDS_T, cmds.MCFunctionFile,
+            Callable[[], ContextManager[None]]
+        ]] = []
         self.result_var = result_var
         self.func_repr = self.name
         compiler.before_finish(self._generate)
@@ -511,7 +513,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
         file = cmds.MCFunctionFile()
-        self.files.append((args, keywords, file))
+        self.files.append((args, keywords, file, compiler.save_position()))
         compiler.add_file(file)
         # Make a copy of `result_var`, since another call may change it
         result = self.result_var.data_type.new_var(compiler)
@@ -526,13 +528,15 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def _generate(self, compiler: "Compiler"):
         def _call_bm(args: ARGS_T, keywords: KEYWORDS_T,
-                     bm: _BoundMethod) -> CMDLIST_T:
-            result, commands = bm.call_withframe(
-                args, keywords, compiler,
-                location=
-                    localize("objects.function.bvm.dispatcher") % self.name
-            )
-            commands.extend(result.export(self.result_var, compiler))
+                     bm: _BoundMethod, position: ContextManager[None]) \
+                -> CMDLIST_T:
+            with position:
+                result, commands = bm.call_withframe(
+                    args, keywords, compiler,
+                    location=
+                        localize("objects.function.bvm.dispatcher") % self.name
+                )
+                commands.extend(result.export(self.result_var, compiler))
             return commands
 
         if len(self.impls) == 1:
@@ -540,7 +544,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             only_selfvar = None if _getself is None else _getself()
         else:
             only_bm = only_selfvar = None
-        for args, keywords, file in self.files:
+        for args, keywords, file, position in self.files:
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
@@ -552,7 +556,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     file.extend(only_selfvar.clear())
                     # XXX direct access to TaggedEntity.tag
                     file.write("tag @s add %s" % only_selfvar.tag)
-                file.extend(_call_bm(args, keywords, only_bm))
+                file.extend(_call_bm(args, keywords, only_bm, position()))
                 continue
             # Fallback
             for bm, templates, get_self_var in self.impls.values():
@@ -565,7 +569,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, bm)
+                commands = _call_bm(args, keywords, bm, position())
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From 1c24775b92ae0a1676907a0ec69f3688f07aa897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 27/74] fix: methods overridden in one branch of a diamond
 inheritance were lost

---
 acaciamc/objects/entity_template.py | 34 +++++++++++++++++++----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 054ec5a..64228ea 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -103,16 +103,22 @@ class _MethodDispatcher:
         for bound in self.bound:
             bound.add_implementation(template, implementation, get_self_var)
 
-    def register_inherit(self, template: "EntityTemplate",
-                         parent: "EntityTemplate"):
-        for impl, (templates, get_self) in self.impls.items():
-            if parent in templates:
-                templates.append(template)
-                for bound in self.bound:
-                    bound.add_implementation(template, impl, get_self)
+    def register_inherit(self, template: "EntityTemplate"):
+        # Find the first template in MRO that implements this method
+        definers = {
+            templates[0]: impl
+            for impl, (templates, _) in self.impls.items()
+        }
+        for parent in template.mro_[1:]:
+            if parent in definers:
+                impl = definers[parent]
                 break
         else:
             unreachable("Base not found")
+        templates, get_self = self.impls[impl]
+        templates.append(template)
+        for bound in self.bound:
+            bound.add_implementation(template, impl, get_self)
 
     def bind_to(self, entity: "_EntityBase"):
         res = BoundVirtualMethod(
@@ -320,12 +326,17 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                 if m_virtual.setdefault(method, disp) is not disp:
                     raise Error(ErrorType.MULTIPLE_VIRTUAL_METHOD,
                                 method=method)
+            # NOTE the method tables of `parent` also contain methods it
+            # inherited, which must not hide those defined by templates
+            # that come after `parent` in MRO.
             for method, mgr in parent.simple_methods.items():
                 _check(m_virtual, m_static, method)
-                m_simple[method] = mgr
+                if mgr.template is parent:
+                    m_simple[method] = mgr
             for method, impl in parent.static_methods.items():
                 _check(m_virtual, m_simple, method)
-                m_static[method] = impl
+                if method in parent.own_static_methods:
+                    m_static[method] = impl
         ## Make sure field names do not conflict with method names
         for attr in attr_list:
             if attr in m_virtual or attr in m_simple or attr in m_static:
@@ -340,7 +351,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                     raise Error(ErrorType.OVERRIDE_QUALIFIER,
                                 got=qualifier.localized, name=method)
                 _check_override(implementation, method)
-                disp = parent.method_dispatchers[method]
+                disp = m_virtual[method]
                 self.method_dispatchers[method] = disp
                 disp.register(self, implementation)
                 continue
@@ -368,12 +379,13 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                 raise Error(ErrorType.NOT_OVERRIDING, name=method)
             else:
                 unreachable()
+        self.own_static_methods = set(self.static_methods)
         ## Inherit methods
         for method, disp in m_virtual.items():
             if method not in self.method_dispatchers:
                 # Inherited override methods
                 self.method_dispatchers[method] = disp
-                disp.register_inherit(self, parent)
+                disp.register_inherit(self)
         for method, mgr in m_simple.items():
             if method not in self.simple_methods:
                 # Inherited simple methods
-- 
2.43.0


From 0e96f16cd18069cf4a896c9d4d39bbdeaa0eb3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 28/74] fix: diamond inheritance of an entity field was refused

---
 acaciamc/objects/entity_template.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 64228ea..3aaa01a 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -292,17 +292,15 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             else:
                 raise Error(ErrorType.MRO)
         ## Check attribute name conlicts
-        # Attributes may appear only once
-        attr_list = list(chain(
-            field_types,
-            chain.from_iterable(t.field_types for t in parents)
-        ))
-        seen = set()
-        for attr in attr_list:
-            if attr in seen:
+        # Attributes may be defined only once (though one definition may
+        # be inherited in more than one way)
+        attr_list: Dict[str, dict] = {}
+        for attr, meta in chain(
+            field_metas.items(),
+            chain.from_iterable(t.field_metas.items() for t in parents)
+        ):
+            if attr_list.setdefault(attr, meta) is not meta:
                 raise Error(ErrorType.EFIELD_MULTIPLE_DEFS, attr=attr)
-            else:
-                seen.add(attr)
         ## Inherit attributes
         for parent in parents:
             self.field_types.update(parent.field_types)
-- 
2.43.0


From 13003b483dc863d3bcdefa69176debfca4b8ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 29/74] fix: Enfilter.random emitted type=None when the type
 was known before

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a893ae4..ba31075 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -139,7 +139,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
                             % (type_, self.entity_type)
                     )
             if not selector.has_arg("type"):
-                selector.type(type_)
+                selector.type(self.entity_type)
             selector.limit(limit)
             # There should be a difference between these two:
             # (Supporse there are more than 5 entities with name "xxx")
-- 
2.43.0


From e5b0b9d68ffa99879a70e726ca7ecfbd6c8c79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 30/74] fix: Enfilter positions after random limited what was
 selected from

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index ba31075..814709d 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -407,7 +407,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_context(
         self, compiler, *context: "_ExecuteSubcmd"
     ) -> MCSelector:
-        if self.context_occupied:
+        if self.context_occupied or self.next_use_new_data:
             self._new_data(compiler)
         self.data[-1].subcmds.extend(context)
         self.context_occupied = True
-- 
2.43.0


From b6b020a6110f50d942273e5d93f9aab1cdf7b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 31/74] fix: a second Enfilter.is_game_mode replaced the first
 one

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 814709d..6f474e0 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -319,7 +319,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
         @axe.arg("mode", axe.LiteralString())
         @transform_immutable(self)
         def _is_game_mode(self: EntityFilter, compiler, mode: str):
-            selector = self.last_selector(compiler)
+            selector = self.new_if_got(compiler, "m")
             selector.game_mode(mode)
             self.entity_type = PLAYER
             return self
-- 
2.43.0


From 3e8b0fef7462616f584086ddb1bfaf836e45880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 32/74] fix: Enfilter integer ranges lost their negation or
 were emitted malformed

---
 acaciamc/objects/entity_filter.py | 53 +++++++++++++++++--------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 6f474e0..4fedd27 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -5,6 +5,7 @@ __all__ = ["EFilterType", "EFilterDataType", "EntityFilter"]
 from typing import List, Union, Optional, TYPE_CHECKING
 import re
 
+from acaciamc.constants import INT_MIN, INT_MAX
 from acaciamc.error import *
 from acaciamc.tools import (
     axe, versionlib,
@@ -12,7 +13,7 @@ from acaciamc.tools import (
 )
 from acaciamc.mccmdgen.mcselector import MCSelector, SELECTORVAR_T
 from acaciamc.mccmdgen.datatype import DefaultDataType
-from acaciamc.mccmdgen.ctexpr import CTDataType
+from acaciamc.mccmdgen.ctexpr import CTDataType, CTObj
 from acaciamc.mccmdgen.expr import *
 from acaciamc.localization import localize
 import acaciamc.mccmdgen.cmds as cmds
@@ -24,7 +25,7 @@ if TYPE_CHECKING:
     from acaciamc.mccmdgen.cmds import _ExecuteSubcmd
     from acaciamc.compiler import Compiler
 
-RE_INT = re.compile(r"^[+-]?\s*\d+$")
+RE_INT = re.compile(r"^[+-]? *[0-9]+$")
 PLAYER = "player"  # ID of player entity
 
 class IntRange(axe.AnyOf):
@@ -37,33 +38,39 @@ class IntRange(axe.AnyOf):
     def get_show_name(self) -> str:
         return localize("axe.converter.entityfilter.intrange")
 
-    @staticmethod
-    def check_int(value: str) -> bool:
-        return RE_INT.match(value) is not None
+    def check_int(self, value: str) -> int:
+        if RE_INT.match(value) is None:
+            self.wrong_argument()
+        res = int(value.replace(" ", ""))
+        if not INT_MIN <= res <= INT_MAX:
+            self.wrong_argument()
+        return res
 
     def convert(self, origin: AcaciaExpr) -> str:
-        origin_py = super().convert(origin)
+        return self.convert_py(super().convert(origin))
+
+    def cconvert(self, origin: CTObj) -> str:
+        return self.convert_py(super().cconvert(origin))
+
+    def convert_py(self, origin_py: Union[int, str]) -> str:
         if isinstance(origin_py, int):
             return str(origin_py)
         assert isinstance(origin_py, str)
-        origin_py = origin_py.lstrip()
+        origin_py = origin_py.strip()
+        invert = ""
         if origin_py.startswith("!"):
-            origin_py = origin_py[1:]
-        if ".." in origin_py:
-            min_, max_ = origin_py.split("..")
-            min_ = min_.strip()
-            max_ = max_.strip()
-            if not min_ and not max_:
-                self.wrong_argument()
-            if (min_ and not self.check_int(min_)
-                or max_ and not self.check_int(max_)):
-                self.wrong_argument()
-            return "%s..%s" % (min_, max_)
-        else:
-            if self.check_int(origin_py):
-                return origin_py
-            else:
-                self.wrong_argument()
+            invert = "!"
+            origin_py = origin_py[1:].strip()
+        min_, sep, max_ = map(str.strip, origin_py.partition(".."))
+        if not sep:
+            return "%s%d" % (invert, self.check_int(min_))
+        if not min_ and not max_:
+            self.wrong_argument()
+        return "%s%s..%s" % (
+            invert,
+            self.check_int(min_) if min_ else "",
+            self.check_int(max_) if max_ else ""
+        )
 
 class EFilterDataType(DefaultDataType):
     name = "Enfilter"
-- 
2.43.0


From 729a53cc22de045c26d3d7a6c6fa68ce8663a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:54 +0000
Subject: [PATCH 33/74] fix: assigning a new entity to a variable lost its old
 value too early

---
 acaciamc/objects/entity_template.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 3aaa01a..3283685 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -482,7 +482,16 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
         Calling an entity template summons a new entity, the arguments
         are passed to the constructor.
         """
-        return [
+        # The arguments and the constructor may refer to the entity that
+        # `instance` is holding now (e.g. `a = T(pos=Pos(a))`), so keep
+        # it until the new entity is ready.
+        new, commands = self.call(args, keywords, compiler)
+        commands.extend(new.export(instance, compiler))
+        return commands
+
+    def call(self, args, keywords, compiler):
+        instance = TaggedEntity.new_tag(self, compiler)
+        return instance, [
             *instance.clear(),
             *self.method_new(
                 compiler, IntLiteral(self.runtime_id),
-- 
2.43.0


From 1d5056b64b92db95ff01f7a4e19c2a74b4385994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 34/74] fix: math.mod overflowed for large divisors

---
 acaciamc/modules/_math.aca | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/_math.aca b/acaciamc/modules/_math.aca
index 7415838..8528dae 100644
--- a/acaciamc/modules/_math.aca
+++ b/acaciamc/modules/_math.aca
@@ -8,7 +8,11 @@ def mod(x: int, y: int) -> int:
      * -10 % 3 == -1 while mod(-10, 3) == 2
      * -10 % -3 == mod(-10, -3) == -1
      *#
-    result (x % y + y) % y
+    # `x % y + y` may overflow, so only add when signs differ
+    res := x % y
+    if res != 0 and (res >= 0) != (y >= 0):
+        res += y
+    result res
 
 def floordiv(x: int, y: int) -> int:
     #**
-- 
2.43.0


From 6ecaa29140e53bfa5f8f9f98a7bbc2abfe193af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 35/74] fix: register_loop evaluated a compound interval only
 partially

---
 acaciamc/modules/schedule.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 2e00f21..ca23c7e 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -218,11 +218,16 @@ def register_loop(compiler: "Compiler", target: AcaciaCallable,
     # Tick loop
     ## Call on times up AND reset timer
     tick_commands.extend(interval.export(timer, compiler))
-    compiler.file_tick.extend(
-        cmds.execute(
-            [cmds.ExecuteScoreMatch(timer.slot, "..0")], runs=cmd
+    # The commands must be guarded by the timer as a whole since they
+    # change it
+    loop_file = cmds.MCFunctionFile()
+    loop_file.extend(tick_commands)
+    compiler.add_file(loop_file)
+    compiler.file_tick.write(
+        cmds.Execute(
+            [cmds.ExecuteScoreMatch(timer.slot, "..0")],
+            runs=cmds.InvokeFunction(loop_file)
         )
-        for cmd in tick_commands
     )
     ## Decrease the timer by 1
     compiler.file_tick.write(cmds.ScbRemoveConst(timer.slot, 1))
-- 
2.43.0


From 35582257f3511d38edaf23a66f0b9730bf0ae401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 36/74] fix: quote the ticking area name of Task.on_tickingarea

---
 acaciamc/modules/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index ca23c7e..bf60051 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -169,7 +169,7 @@ class Task(ConstExprCombined):
             return resultlib.commands([
                 cmds.ScheduleFunction(
                     self.target_file,
-                    "on_area_loaded add tickingarea %s" % name
+                    "on_area_loaded add tickingarea %s" % cmds.mc_str(name)
                 ),
             ])
         self.attribute_table.set("_timer", self.timer)
-- 
2.43.0


From b592cb254c330ea47eb15128593c4b4de70d25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 37/74] fix: map.update crashed

---
 acaciamc/objects/map_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index c582c09..859d377 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -235,7 +235,7 @@ class CTMap(CTConstMap):
             return res
         @cmethod_of(self, "update", runtime=False)
         @axe.chop
-        @axe.arg("other", axe.MapOf(axe.Constant(), axe.Constant()))
+        @axe.arg("other", axe.CTMapOf(axe.Constant(), axe.Constant()))
         def _update(compiler, other: Dict[CTObj, CTObj]):
             for k, v in other.items():
                 self.set(k, v)
-- 
2.43.0


From bcb6b82082ce040b657c635f3fa39a669d623a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 38/74] fix: list.repeat crashed in const functions

---
 acaciamc/objects/list_.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index fc038cb..5aff6c6 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -73,8 +73,10 @@ class ListType(Type):
         @axe.chop
         @axe.arg("object", axe.AnyValue(), rename="obj")
         @axe.arg("times", axe.LiteralInt())
-        def _repeat(compiler, obj: AcaciaExpr, times: int):
-            return AcaciaList(repeat(obj, times))
+        def _repeat(compiler, obj: Union[AcaciaExpr, CTObj], times: int):
+            if isinstance(obj, AcaciaExpr):
+                return AcaciaList(repeat(obj, times))
+            return CTConstList(repeat(obj, times))
         @cmethod_of(self, "geometric")
         @axe.chop
         @axe.arg("start", axe.LiteralInt())
@@ -95,7 +97,13 @@ class ListType(Type):
         return ctdt_constlist
 
 def list2ct(x: Iterable[ConstExpr]) -> List[CTObj]:
-    return [i.to_ctexpr() for i in x]
+    res = []
+    for i in x:
+        if not isinstance(i, ConstExpr):
+            # `list.repeat` may produce a list of variables
+            raise Error(ErrorType.ELEMENT_NOT_CONST)
+        res.append(i.to_ctexpr())
+    return res
 
 class AcaciaList(ConstExpr):
     def __init__(self, items: Iterable[ConstExpr]):
-- 
2.43.0


From 1b2427ea1d1ff9b3a133b83a1ce5d188cf61cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 39/74] fix: compile-time maps confused int, bool and float
 keys

---
 acaciamc/objects/boolean.py | 3 ++-
 acaciamc/objects/float_.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 956cff7..da9c7d7 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -152,7 +152,8 @@ class BoolLiteral(ConstExprCombined):
         return [cmds.RawtextText("1" if self.value else "0")], []
 
     def chash(self):
-        return self.value
+        # Python treats `True` and `1` as the same key
+        return (BoolLiteral, self.value)
 
     def compare(self, op: Operator, other: AcaciaExpr, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index c86c08c..98c50e7 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -44,7 +44,8 @@ class Float(ConstExprCombined):
         return str(self)
 
     def chash(self):
-        return self.value
+        # Python treats `1.0` and `1` as the same key
+        return (Float, self.value)
 
     @classmethod
     def from_int(cls, integer: IntLiteral):
-- 
2.43.0


From 23db5cd8755fecb0abc59111807efc0588a16ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 40/74] fix: extending a list with itself never ended

---
 acaciamc/objects/list_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 5aff6c6..d971e67 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -268,7 +268,7 @@ class CTList(CTConstList):
         @axe.arg("values", axe.CTIterator())
         @axe.slash
         def _extend(compiler, values: List["CTExpr"]):
-            self.ptrs.extend(map(self._new_element, values))
+            self.ptrs.extend([self._new_element(v) for v in values])
         @cmethod_of(self, "append", runtime=False)
         @axe.chop
         @axe.arg("value", axe.Constant())
-- 
2.43.0


From e97861dd2dcdcbb5d5ede07cbd89d41f18d08e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 41/74] fix: operator names in errors of const functions

---
 acaciamc/mccmdgen/ctexecuter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index d582565..a41227b 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -5,6 +5,7 @@ from contextlib import contextmanager
 
 from acaciamc.ast import *
 from acaciamc.error import Error, ErrorType, SourceLocation
+from acaciamc.localization import localize
 from acaciamc.mccmdgen.ctexpr import *
 from acaciamc.mccmdgen.symbol import SymbolTable, CTRTConversionError
 from acaciamc.mccmdgen.utils import unreachable, InvalidOpError
@@ -159,7 +160,7 @@ class CTExecuter(ASTVisitor):
             return meth()
         except InvalidOpError:
             self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=node.operator.value,
+                            operator=node.operator.localized,
                             operand=f'"{obj.cdata_type.name}"')
 
     def visit_BinOp(self, node: BinOp):
@@ -175,7 +176,7 @@ class CTExecuter(ASTVisitor):
                 rs = right.cdata_type.name
                 self.error_node(
                     node, ErrorType.INVALID_OPERAND,
-                    operator=node.operator.value,
+                    operator=node.operator.localized,
                     operand=f'"{ls}", "{rs}"'
                 )
         return res
@@ -196,7 +197,7 @@ class CTExecuter(ASTVisitor):
                     rs = right.cdata_type.name
                     self.error_node(
                         node, ErrorType.INVALID_OPERAND,
-                        operator=operator.value,
+                        operator=operator.localized,
                         operand=f'"{ls}", "{rs}"'
                     )
             if not res:
@@ -214,7 +215,7 @@ class CTExecuter(ASTVisitor):
                 self.error_node(
                     node.operands[i],
                     ErrorType.INVALID_BOOLOP_OPERAND,
-                    operator=operator.value,
+                    operator=operator.localized,
                     operand=operand.cdata_type.name
                 )
             if operand.value and operator is Operator.or_:
@@ -285,7 +286,9 @@ class CTExecuter(ASTVisitor):
             t1 = abs(target).cdata_type.name
             t2 = value.cdata_type.name
             self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=f'{node.operator.value}=',
+                            operator=localize(
+                                f"{node.operator.value}.augmented"
+                            ),
                             operand=f'"{t1}", "{t2}"')
         target.set(res)
 
-- 
2.43.0


From d90a066f94dd8699ea4249933bb6abc64792e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 42/74] fix: passing a non-constant to a const argument of a
 builtin crashed

---
 acaciamc/tools/axe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 9ce908c..66d660f 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -782,7 +782,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
         elif isinstance(origin, acacia.ConstExpr):
             convert = lambda: converter.cconvert(origin.to_ctexpr())
         else:
-            raise _PreconvertError(_PE_NOT_CONST)
+            raise _PreconvertError(_PE_NOT_CONST, origin)
     else:
         if isinstance(converter, CTConverter):
             convert = lambda: converter.cconvert(origin)
@@ -790,7 +790,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
             try:
                 origin_rt = abs(origin).to_rt()
             except InvalidOpError:
-                raise _PreconvertError(_PE_NOT_RT)
+                raise _PreconvertError(_PE_NOT_RT, origin)
             convert = lambda: converter.convert(origin_rt)
     return convert
 
-- 
2.43.0


From 30daec86e06867737721f1599ed89964b5ea6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 43/74] fix: keep the commands an fstring depends on when
 concatenating fstrings

---
 acaciamc/modules/print.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index d8771ce..dc407a4 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -167,6 +167,7 @@ class FString(ConstExprCombined):
         if isinstance(other, String):
             res.rawtext.append(cmds.RawtextText(other.value))
         elif isinstance(other, FString):
+            res.dependencies.extend(other.dependencies)
             res.rawtext.extend(other.rawtext)
         else:
             raise InvalidOpError
-- 
2.43.0


From a925c4068d04a449cd4efb251176d995fb1a3140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 44/74] fix: report empty braces in a print.format pattern
 instead of crashing

---
 acaciamc/modules/print.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index dc407a4..8fec645 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -78,7 +78,7 @@ class _FStrParser:
         """Get the expr from an format
         e.g. "0" -> args[0]; "key" -> keywords["key"]
         """
-        if all(c in DIGITS for c in name):
+        if name and all(c in DIGITS for c in name):
             index = int(name)
             try:
                 expr = self.args[index]
-- 
2.43.0


From 0c44433d5d3a233d1ab1593a37308f7a6cf1400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:31 +0000
Subject: [PATCH 45/74] fix: allow a while body in a const function to define
 names in every iteration

---
 acaciamc/mccmdgen/ctexecuter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index a41227b..4f0d136 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -327,7 +327,12 @@ class CTExecuter(ASTVisitor):
                     got=condition.cdata_type.name
                 )
             return condition.value
+        names_before = set(self.current_scope.all_names())
         while _while_cond():
+            # Names defined in the body are defined anew every iteration
+            for name in list(self.current_scope.all_names()):
+                if name not in names_before:
+                    self.current_scope.delete(name)
             for stmt in node.body:
                 self.visit(stmt)
 
-- 
2.43.0


From 86da7f219fdaf5e5d90867c980f5ca0b5d4bae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:23 +0000
Subject: [PATCH 46/74] fix: let inline overrides use self as an entity of
 their own template

---
 acaciamc/objects/entity_template.py |  9 ++++++---
 acaciamc/objects/functions.py       | 27 ++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 3283685..2b7d210 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -101,7 +101,8 @@ class _MethodDispatcher:
                 return _sv
         self.impls[implementation] = ([template], get_self_var)
         for bound in self.bound:
-            bound.add_implementation(template, implementation, get_self_var)
+            bound.add_implementation(template, implementation, get_self_var,
+                                     definer=template)
 
     def register_inherit(self, template: "EntityTemplate"):
         # Find the first template in MRO that implements this method
@@ -118,7 +119,8 @@ class _MethodDispatcher:
         templates, get_self = self.impls[impl]
         templates.append(template)
         for bound in self.bound:
-            bound.add_implementation(template, impl, get_self)
+            bound.add_implementation(template, impl, get_self,
+                                     definer=templates[0])
 
     def bind_to(self, entity: "_EntityBase"):
         res = BoundVirtualMethod(
@@ -127,7 +129,8 @@ class _MethodDispatcher:
         self.bound.append(res)
         for impl, (templates, get_self_var) in self.impls.items():
             for template in templates:
-                res.add_implementation(template, impl, get_self_var)
+                res.add_implementation(template, impl, get_self_var,
+                                       definer=templates[0])
         return res
 
     def bind_to_cast(self, entity: "_EntityBase"):
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 5fcb3b1..f7f60f2 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -428,11 +428,18 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
     cdata_type = ctdt_function
 
     def __init__(self, object_: "_EntityBase", method_name: str,
-                 definition: METHODDEF_T):
+                 definition: METHODDEF_T,
+                 self_template: Optional["EntityTemplate"] = None):
+        """
+        self_template: template of `self` in the body of an inline
+        method. Defaults to the template of `object_`.
+        """
         super().__init__(FunctionDataType())
         self.name = method_name
         self.object = object_
         self.definition = definition
+        self.self_template = (object_.template if self_template is None
+                              else self_template)
         self.is_inline = isinstance(definition, InlineFunction)
         self.func_repr = self.name
         self.source = self.definition.source
@@ -443,8 +450,9 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
                    "Unexpected target function %r" % self.definition
             # `EntityReference` is needed so that `self` is not
             # assignable.
-            self.definition.context.self_value = \
-                EntityReference.from_other(self.object)
+            self.definition.context.self_value = EntityReference(
+                self.object.get_selector(), self.self_template
+            )
         result, commands = self.definition.call(args, keywords, compiler)
         # `BinaryFunction`s cannot be method implementation
         # because we are not sure about their result data type
@@ -502,13 +510,22 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
-        get_self_var: Optional[Callable[[], "TaggedEntity"]]
+        get_self_var: Optional[Callable[[], "TaggedEntity"]],
+        definer: "EntityTemplate"
     ):
+        """definer: the template that `definition` is written in."""
         if definition in self.impls:
             _, templates, _ = self.impls[definition]
             templates.append(template)
         elif template.is_subtemplate_of(self.object.template):
-            bound_method = _BoundMethod(self.object, self.name, definition)
+            # An override may only be reached when the entity is of the
+            # template that defines it, so that is what `self` is.
+            self_template = self.object.template
+            if not self_template.is_subtemplate_of(definer):
+                self_template = definer
+            bound_method = _BoundMethod(
+                self.object, self.name, definition, self_template
+            )
             self.impls[definition] = (bound_method, [template], get_self_var)
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
-- 
2.43.0


From 24debc9965b75063664ab1c161d61415adee9ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 47/74] fix: generate virtual calls made by inline methods
 after their dispatcher was written

---
 acaciamc/objects/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f7f60f2..2588e4d 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -506,7 +506,6 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         ]] = []
         self.result_var = result_var
         self.func_repr = self.name
-        compiler.before_finish(self._generate)
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
@@ -530,6 +529,10 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
         file = cmds.MCFunctionFile()
+        # NOTE calls may also be added when code of inline methods is
+        # being generated before finish, even after our own callback.
+        if not self.files:
+            compiler.before_finish(self._generate)
         self.files.append((args, keywords, file, compiler.save_position()))
         compiler.add_file(file)
         # Make a copy of `result_var`, since another call may change it
@@ -561,7 +564,8 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             only_selfvar = None if _getself is None else _getself()
         else:
             only_bm = only_selfvar = None
-        for args, keywords, file, position in self.files:
+        files, self.files = self.files, []
+        for args, keywords, file, position in files:
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
-- 
2.43.0


From a5d5b7d9bd3f0fc919e38c1168d538362f9b8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 48/74] fix: give results of inline functions their declared
 type

---
 acaciamc/mccmdgen/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 7d5133a..d653355 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -985,6 +985,9 @@ class Generator(ASTVisitor):
                     self.error_c(ErrorType.UNSUPPORTED_RESULT_TYPE,
                                  result_type=str(dt))
                 if self.ctx.inline_result is None:
+                    # Later results may be of any type that is declared
+                    if isinstance(rt, Storable):
+                        dt = rt
                     self.ctx.inline_result = dt.new_var(self.compiler)
                     self.ctx.inline_result.is_temporary = True
                 self.current_file.extend(
-- 
2.43.0


From fcad088b8e1f0abb5f7087b070ce8344d6d4fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 49/74] fix: give arguments of inline functions their declared
 type

---
 acaciamc/mccmdgen/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index d653355..75d8d94 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1231,6 +1231,10 @@ class Generator(ASTVisitor):
                     if not isinstance(dt, Storable):
                         self.error_c(ErrorType.UNSUPPORTED_ARG_TYPE,
                                      arg=arg, arg_type=str(dt))
+                    # The body may assign any value of the declared type
+                    declared = func.arg_handler.arg_types[arg]
+                    if isinstance(declared, Storable):
+                        dt = declared
                     tmp = dt.new_var(self.compiler)
                     self.register_symbol(arg, tmp)
                     self.current_file.extend(value.export(tmp, self.compiler))
-- 
2.43.0


From 16acbf68f70748a8ab57e7ef76fafbc04bfea14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 50/74] fix: do not merge a filter's random or all_players into
 a preceding nearest_from

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 4fedd27..42d17c1 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -405,7 +405,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_selector_var(
         self, compiler, var: SELECTORVAR_T
     ) -> MCSelector:
-        if self.data[-1].selector.is_var_set():
+        if self.data[-1].selector.is_var_set() or self.next_use_new_data:
             self._new_data(compiler)
         res = self.data[-1].selector
         res.var = var
-- 
2.43.0


From f8b306bb27cb341b77aef9e8d7578f72022f87ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 51/74] fix: omit selector arguments that have no condition

---
 acaciamc/mccmdgen/mcselector.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acaciamc/mccmdgen/mcselector.py b/acaciamc/mccmdgen/mcselector.py
index c0f0d62..d63ddf5 100644
--- a/acaciamc/mccmdgen/mcselector.py
+++ b/acaciamc/mccmdgen/mcselector.py
@@ -70,6 +70,8 @@ class MCSelector:
                 "%s=%s" % (scb, range_) for scb, range_ in value
             )
         elif arg == "haspermission":
+            if not any(value):
+                return ""
             return "haspermission={%s}" % ",".join(
                 [("%s=enabled" % p) for p in value[0]]
                 + [("%s=disabled" % p) for p in value[1]]
@@ -81,12 +83,12 @@ class MCSelector:
         var = self.var
         if var is None:
             var = "e"  # when var is not set it should be all entities
-        return "@%s%s" % (
-            var,
-            "[%s]" % ",".join(self.arg_to_str(arg, value)
-                              for arg, value in self.args.items())
-            if self.args else ""
-        )
+        # An argument without any condition (e.g. an empty tag list) is
+        # left out
+        args = list(filter(None, (
+            self.arg_to_str(arg, value) for arg, value in self.args.items()
+        )))
+        return "@%s%s" % (var, "[%s]" % ",".join(args) if args else "")
 
     def player_type(self):
         if self.has_arg("type"):
-- 
2.43.0


From 2ba190a8a60e6213a79f0c937eaa873d9c427d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 52/74] fix: write small and large floats without an exponent
 in commands

---
 acaciamc/mccmdgen/cmds.py           | 8 ++++++++
 acaciamc/modules/world.py           | 2 +-
 acaciamc/objects/float_.py          | 3 ++-
 acaciamc/objects/position_offset.py | 3 ++-
 acaciamc/objects/rotation.py        | 6 ++++--
 5 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 4d85da4..b5b4bae 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -1,6 +1,7 @@
 """Abstraction of Minecraft commands."""
 
 from abc import ABCMeta, abstractmethod
+from decimal import Decimal
 from enum import Enum
 from typing import List, NamedTuple, Optional, Union, Iterable, Callable, Dict
 import json
@@ -20,6 +21,13 @@ def mc_str(s: str) -> str:
     else:
         return s
 
+def mc_float(value: float) -> str:
+    """Minecraft does not understand scientific notation."""
+    res = str(value)
+    if "e" in res:
+        res = format(Decimal(res), "f")
+    return res
+
 def mc_selector(s: str) -> str:
     if s.startswith("@"):
         return s
diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 0643344..8de733f 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -697,7 +697,7 @@ def spread(compiler, target: "MCSelector", center: Position,
         )
     cmd = cmds.Execute(
         center.context, "spreadplayers ~ ~ %s %s %s" % (
-            interval, range_, target.to_str()
+            cmds.mc_float(interval), cmds.mc_float(range_), target.to_str()
         )
     )
     return resultlib.commands([cmd])
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index 98c50e7..3f9a904 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -9,6 +9,7 @@ from acaciamc.tools import axe, cmethod_of
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+from acaciamc.mccmdgen.cmds import mc_float
 from acaciamc.mccmdgen.utils import InvalidOpError
 from .integer import IntLiteral
 from .types import Type
@@ -52,7 +53,7 @@ class Float(ConstExprCombined):
         return Float(float(integer.value))
 
     def __str__(self) -> str:
-        return str(self.value)
+        return mc_float(self.value)
 
     def cunarypos(self):
         return self
diff --git a/acaciamc/objects/position_offset.py b/acaciamc/objects/position_offset.py
index 778205e..6f972e0 100644
--- a/acaciamc/objects/position_offset.py
+++ b/acaciamc/objects/position_offset.py
@@ -15,6 +15,7 @@ from acaciamc.tools import axe, cmethod_of, ImmutableMixin, transform_immutable
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+import acaciamc.mccmdgen.cmds as cmds
 from .types import Type
 
 class CoordinateType(Enum):
@@ -121,7 +122,7 @@ class PosOffset(ConstExprCombined, ImmutableMixin):
 
     def __str__(self) -> str:
         return " ".join(
-            type_.value + str(value)
+            type_.value + cmds.mc_float(value)
             for type_, value in zip(self.value_types, self.values)
         )
 
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 98014d5..6e7b769 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -51,7 +51,9 @@ class RotType(Type):
             def absolute(cls, compiler, vertical: float, horizontal: float):
                 inst = Rotation()
                 inst.context.append(cmds.ExecuteEnv(
-                    "rotated", "%s %s" % (vertical, horizontal)
+                    "rotated", "%s %s" % (
+                        cmds.mc_float(vertical), cmds.mc_float(horizontal)
+                    )
                 ))
                 return inst
         @cmethod_of(self, "face_entity")
@@ -104,7 +106,7 @@ class Rotation(ConstExprCombined, ImmutableMixin):
                 if arg is None:
                     vh.append("~")
                 else:
-                    vh.append(type_prefix + str(arg))
+                    vh.append(type_prefix + cmds.mc_float(arg))
             self.context.append(cmds.ExecuteEnv("rotated", " ".join(vh)))
             return self
         return _setter
-- 
2.43.0


From bc6befbf7588e6b82364185031d3f6dd0c507cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 53/74] fix: diagnose offsets mixing local and world
 coordinates

---
 acaciamc/error.py                   | 1 +
 acaciamc/lang/en_US.lang            | 1 +
 acaciamc/objects/position_offset.py | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/acaciamc/error.py b/acaciamc/error.py
index b027698..3b83b50 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -133,6 +133,7 @@ class ErrorType(LocalizedEnum):
     UNINITIALIZED_CONST = "error.errortype.uninitializedconst"
     INVALID_CONST_STMT = "error.errortype.invalidconststmt"
     POS_OFFSET_CTOR_ARG = "error.errortype.posoffsetctorarg"
+    POS_OFFSET_MIXED = "error.errortype.posoffsetmixed"
     INVALID_POS_ALIGN = "error.errortype.invalidposalign"
     LIST_INDEX_OUT_OF_BOUNDS = "error.errortype.listindexoutofbounds"
     MAP_KEY_NOT_FOUND = "error.errortype.mapkeynotfound"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index cbca6d2..59a67a6 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -207,6 +207,7 @@ error.errortype.virtualoverridesimple = Virtual method "{name}" has the same nam
 error.errortype.uninitializedconst = Uninitialized variable in compile time function
 error.errortype.invalidconststmt = Invalid statement in compile time function
 error.errortype.posoffsetctorarg = At most one of the arguments "{axis}" and "{axis} _abs" can be float
+error.errortype.posoffsetmixed = Local coordinates can't be mixed with other coordinates
 error.errortype.invalidposalign = Invalid position alignment "{align}"
 error.errortype.listindexoutofbounds = List with length {length} got out of bounds index {index}
 error.errortype.mapkeynotfound = Map key not found
diff --git a/acaciamc/objects/position_offset.py b/acaciamc/objects/position_offset.py
index 6f972e0..8e2fe5e 100644
--- a/acaciamc/objects/position_offset.py
+++ b/acaciamc/objects/position_offset.py
@@ -133,6 +133,10 @@ class PosOffset(ConstExprCombined, ImmutableMixin):
             self.set(1, y, coord_type)
         if z is not None:
             self.set(2, z, coord_type)
+        if len(set(
+            type_ is CoordinateType.LOCAL for type_ in self.value_types
+        )) > 1:
+            raise Error(ErrorType.POS_OFFSET_MIXED)
 
     @classmethod
     def local(cls, left: float, up: float, front: float):
-- 
2.43.0


From 41e46dcc3f3afa9ecd276f0f02ab9069c9a94f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 54/74] fix: accept only feet and eyes as anchors

---
 acaciamc/objects/position.py | 2 +-
 acaciamc/objects/rotation.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 15e9b99..79f7680 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -42,7 +42,7 @@ class PosType(Type):
             """
             @axe.overload
             @axe.arg("target", entity_module.EntityDataType)
-            @axe.arg("anchor", axe.LiteralString())
+            @axe.arg("anchor", axe.LiteralStringEnum("feet", "eyes"))
             def from_entity(cls, compiler, target: "_EntityBase", anchor: str):
                 inst = Position()
                 inst.context.append(cmds.ExecuteEnv("at", target.to_str()))
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 6e7b769..fbdbde4 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -59,7 +59,8 @@ class RotType(Type):
         @cmethod_of(self, "face_entity")
         @axe.chop
         @axe.arg("target", entity_module.EntityDataType)
-        @axe.arg("anchor", axe.LiteralString(), default=DEFAULT_ANCHOR)
+        @axe.arg("anchor", axe.LiteralStringEnum("feet", "eyes"),
+                 default=DEFAULT_ANCHOR)
         def _face_entity(compiler, target: "_EntityBase", anchor: str):
             inst = Rotation()
             inst.context.append(cmds.ExecuteEnv(
-- 
2.43.0


From e84b08c601a87a10ce9dfda4e0b146733f568fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 55/74] fix: diagnose an empty alignment of a position

---
 acaciamc/objects/position.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 79f7680..7b16b89 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -131,7 +131,8 @@ class Position(ConstExprCombined, ImmutableMixin):
             `Pos(10.5, 9.8, 10.5).align("xz")` gives `Pos(10, 9.8, 10)`.
             """
             axis_set = set(axis)
-            if len(axis) != len(axis_set) or not axis_set.issubset(XYZ):
+            if (not axis_set or len(axis) != len(axis_set)
+                    or not axis_set.issubset(XYZ)):
                 raise Error(ErrorType.INVALID_POS_ALIGN, align=axis)
             self.context.append(cmds.ExecuteEnv("align", axis))
             return self
-- 
2.43.0


From 7efbc3fa5aaf541ed660125be77a9a68d956bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 56/74] fix: accept the documented clone mode replace

---
 acaciamc/modules/world.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 8de733f..61f86b8 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -393,12 +393,12 @@ class ArgItem(axe.AnyOf):
 @axe.arg("offset", PosOffsetDataType)
 @axe.arg("dest", PosOffsetDataType)
 @axe.arg("mode", axe.Nullable(
-    axe.LiteralStringEnum("move", "force")
+    axe.LiteralStringEnum("move", "force", "replace")
 ), default=None)
 @axe.arg("no_air", axe.LiteralBool(), default=False)
 def clone(compiler: "Compiler", origin: Position, offset: PosOffset,
           dest: PosOffset, mode: Optional[str], no_air: bool):
-    if mode is None:
+    if mode is None or mode == "replace":
         mode = "normal"
     mask = "masked" if no_air else "replace"
     cmd = cmds.Execute(
@@ -414,11 +414,11 @@ def clone(compiler: "Compiler", origin: Position, offset: PosOffset,
 @axe.arg("dest", PosOffsetDataType)
 @axe.arg("block", ArgBlock())
 @axe.arg("mode", axe.Nullable(
-    axe.LiteralStringEnum("move", "force")
+    axe.LiteralStringEnum("move", "force", "replace")
 ), default=None)
 def clone_only(compiler, origin: Position, offset: PosOffset, dest: PosOffset,
                mode: Optional[str], block: Block):
-    if mode is None:
+    if mode is None or mode == "replace":
         mode = "normal"
     cmd = cmds.Execute(
         origin.context, runs="clone ~ ~ ~ %s %s filtered %s %s" % (
-- 
2.43.0


From 6e411ee410a2ab52a32474d67ad0a46f9b19fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 57/74] fix: report a source file that cannot be decoded as an
 I/O error naming the file

---
 acaciamc/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ec31ca3..0333035 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -475,6 +475,10 @@ class Compiler:
             if not err.location.file_set():
                 err.location.file = path
             raise
+        except UnicodeError as err:
+            error = Error(ErrorType.IO, message=str(err))
+            error.location.file = path
+            raise error
         finally:
             src_file.close()
         self.current_generator = Generator(
-- 
2.43.0


From 11c31b1692b866e97af9f07c0a0930e97eda2dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 58/74] fix: report an output directory that cannot be created

---
 acaciamc/cli.py          | 6 +++++-
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index 22c86fc..ee59c55 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -199,7 +199,11 @@ def run(args):
         out_up = os.path.dirname(out_path)
         if not os.path.exists(out_up):
             fatal(localize("cli.run.outputnotfound") % out_up)
-        os.mkdir(out_path)
+        try:
+            os.mkdir(out_path)
+        except OSError as e:
+            fatal(localize("cli.run.outputfailure")
+                  .format(path=out_path, message=e.strerror))
 
     try:
         compiler = Compiler(args.file, cfg)
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 59a67a6..fb3303c 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -99,6 +99,7 @@ cli.tryrmtree.failure = failed to remove {path}: {message}
 cli.run.filenotfound = file not found: %s
 cli.run.notafile = not a file: %s
 cli.run.outputnotfound = output directory not found: %s
+cli.run.outputfailure = failed to create output directory {path}: {message}
 cli.run.aboveunexpectederror = the above unexpected error occurred when compiling
 cli.run.unexpectederror = unexpected error when compiling: %s
 
-- 
2.43.0


From 48f109a984ff39db93c00e34b4ea4fc741b5a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 59/74] fix: keep the old output when the new one cannot be
 encoded

---
 acaciamc/cli.py      |  1 +
 acaciamc/compiler.py | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index ee59c55..74699ac 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -207,6 +207,7 @@ def run(args):
 
     try:
         compiler = Compiler(args.file, cfg)
+        compiler.check_encoding()
         if args.override_old:
             # Remove old output directory if -u is set and compilation
             # succeeded.
diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 0333035..c2de31d 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -10,6 +10,7 @@ from typing import (
     TYPE_CHECKING
 )
 import os
+from io import BytesIO, TextIOWrapper
 from contextlib import contextmanager
 
 from acaciamc.ast import ModuleMeta
@@ -213,6 +214,24 @@ class Compiler:
         if isinstance(self.output_mgr, OutputOptimized):
             self.output_mgr.optimize()
 
+    def check_encoding(self):
+        """
+        Make sure that the result can be written with the encoding set
+        in configuration, so that no output is half written.
+        """
+        contents = [file.to_str(debugging=self.cfg.debug_comments)
+                    for file in self.output_mgr.files]
+        if self.file_tick.has_content():
+            contents.append(self.output_mgr.tick_file_full_path)
+        for content in contents:
+            try:
+                with TextIOWrapper(
+                    BytesIO(), encoding=self.cfg.encoding
+                ) as f:
+                    f.write(content)
+            except UnicodeError as err:
+                self.raise_error(Error(ErrorType.IO, message=str(err)))
+
     def output(self, path: str):
         """
         Output result to `path`.
-- 
2.43.0


From 680c22fcdef18eed13a3b861dc557b9ea546aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 60/74] fix: bind every alias when one name is imported several
 times

---
 acaciamc/ast.py                | 6 +++---
 acaciamc/mccmdgen/generator.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/acaciamc/ast.py b/acaciamc/ast.py
index 0af1052..d3976c2 100644
--- a/acaciamc/ast.py
+++ b/acaciamc/ast.py
@@ -2,7 +2,7 @@
 
 from typing import (
     Union as _Union, List as _List, Optional as _Optional, Dict as _Dict,
-    Iterable as _Iterable
+    Iterable as _Iterable, Tuple as _Tuple
 )
 
 from acaciamc.localization import LocalizedEnum as _LocalizedEnum
@@ -334,9 +334,9 @@ class FromImport(Statement):  # import specific things from a module
     ):
         super().__init__(lineno, col)
         self.meta = meta
-        self.id2name: _Dict[str, str] = {}
+        self.names: _List[_Tuple[str, str]] = []
         for name, alias in zip(names, aliases):
-            self.id2name[name] = name if alias is None else alias
+            self.names.append((name, name if alias is None else alias))
 
 class FromImportAll(Statement):  # import everything in a module
     def __init__(self, meta: ModuleMeta, lineno, col):
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 75d8d94..ede219c 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -716,13 +716,13 @@ class Generator(ASTVisitor):
     def visit_FromImport(self, node: FromImport):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
         self.write_debug("Import from %s" % path)
-        for name, alias in node.id2name.items():
+        for name, alias in node.names:
             value = self.attribute_of(module, name)
             if value is None:
                 self.error_c(ErrorType.MODULE_NO_ATTRIBUTE,
                              attr=name, module=str(node.meta))
             self.register_symbol(alias, value)
-        self.ctx.scope.no_export.update(node.id2name.values())
+        self.ctx.scope.no_export.update(alias for _, alias in node.names)
 
     def visit_FromImportAll(self, node: FromImportAll):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
-- 
2.43.0


From 1f2b87d7294db490a3624d66186831c193b12b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 61/74] fix: code after a long comment that began the line
 keeps its indentation

---
 acaciamc/tokenizer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 0758b6d..63e7214 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -249,6 +249,9 @@ class Tokenizer:
         self.continued_command = False
         self.continued_comment = False
         self.continued_comment_pos: Union[None, Tuple[int, int]] = None
+        # Indentation of the logical line that so far only consists of an
+        # unclosed long comment; -1 otherwise.
+        self.pending_prespaces = -1
         self.last_is_interface = False
 
     def error(self, err_type: ErrorType, lineno=None, col=None, **kwargs):
@@ -308,7 +311,7 @@ class Tokenizer:
                 prespaces += 1
                 self.forward()
         else:
-            prespaces = -1
+            prespaces = self.pending_prespaces
             if self.continued_comment:
                 self.handle_long_comment()
         while True:
@@ -465,8 +468,14 @@ class Tokenizer:
             backslash = self.last_line_continued = True
         # Count indent: if this physical line is not a continued line,
         # and (this physical line has content or ends with backslash)
-        if (res or backslash) and prespaces != -1:
-            res[:0] = self.handle_indent(prespaces)
+        self.pending_prespaces = -1
+        if res or backslash:
+            if prespaces != -1:
+                res[:0] = self.handle_indent(prespaces)
+        elif self.continued_comment:
+            # A long comment started before any content of this logical
+            # line; what follows the comment belongs to this indentation.
+            self.pending_prespaces = prespaces
         # Add a fake line to clean up if we reach end of file
         if eof:
             self.current_lineno += 1
-- 
2.43.0


From 2ab6bbf62103943347bab6647deafdb0e87de666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 62/74] fix: refuse augmented assignment to values that do not
 support it

---
 acaciamc/mccmdgen/expr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/expr.py b/acaciamc/mccmdgen/expr.py
index 74fadbe..a085881 100644
--- a/acaciamc/mccmdgen/expr.py
+++ b/acaciamc/mccmdgen/expr.py
@@ -186,15 +186,15 @@ class AcaciaExpr:
     def unarynot(self, compiler: "Compiler") -> "AcaciaExpr":
         raise InvalidOpError
 
-    def iadd(self, compiler: "Compiler") -> CMDLIST_T:
+    def iadd(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def isub(self, compiler: "Compiler") -> CMDLIST_T:
+    def isub(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imul(self, compiler: "Compiler") -> CMDLIST_T:
+    def imul(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def idiv(self, compiler: "Compiler") -> CMDLIST_T:
+    def idiv(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imod(self, compiler: "Compiler") -> CMDLIST_T:
+    def imod(self, other, compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
 
 class ConstExpr(AcaciaExpr, metaclass=ABCMeta):
-- 
2.43.0


From 7f59b49bb3bff407459be6eb1900b15d02238e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 63/74] fix: locate a repeated struct field at its own line

---
 acaciamc/mccmdgen/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index ede219c..da35c51 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -940,7 +940,8 @@ class Generator(ASTVisitor):
             if isinstance(decl, StructField):
                 name, type_ = res
                 if name in fields:
-                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, attr=name)
+                    self.error_node(decl, ErrorType.SFIELD_MULTIPLE_DEFS,
+                                    attr=name)
                 fields[name] = type_
             else:
                 assert isinstance(decl, Pass)
-- 
2.43.0


From f01dd827091f60c17c6d03445ad7221832c957bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 64/74] fix: do not give the position of an import to an
 undecodable module

---
 acaciamc/mccmdgen/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index da35c51..ae2759a 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -130,8 +130,8 @@ class Generator(ASTVisitor):
     def error(self, error: Error):
         if not error.location.file_set():
             error.location.file = self.file_name
-        if not error.location.linecol_set():
-            self.fix_error_location(error)
+            if not error.location.linecol_set():
+                self.fix_error_location(error)
         raise error
 
     def error_node(self, node: AST, *args, **kwds):
-- 
2.43.0


From 938f8f77fec22b0c6701fc5e3fa2afaf4f77c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 65/74] fix: locate errors of inline and const functions of
 other modules

---
 acaciamc/mccmdgen/ctexecuter.py |  4 +++-
 acaciamc/mccmdgen/generator.py  | 22 +++++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 4f0d136..e9b21e9 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -56,6 +56,8 @@ class CTExecuter(ASTVisitor):
         except Error as e:
             if not e.location.linecol_set():
                 e.location.linecol = (self.curnode.lineno, self.curnode.col)
+            if not e.location.file_set():
+                e.location.file = self.file_name
             raise
 
     def node_location(self, node: AST):
@@ -63,7 +65,7 @@ class CTExecuter(ASTVisitor):
 
     def error_node(self, node: AST, *args, **kwds):
         err = Error(*args, **kwds)
-        # `err.location.file` is to be done by `Generator`
+        # `err.location.file` is to be done by `visittop`
         err.location.linecol = (node.lineno, node.col)
         raise err
 
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index ae2759a..0afd84e 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1225,13 +1225,13 @@ class Generator(ASTVisitor):
                 port = func.arg_ports[arg]
                 if port is FuncPortType.by_reference:
                     if not value.is_assignable():
-                        self.error_c(ErrorType.CANT_REF_ARG, arg=arg)
+                        raise Error(ErrorType.CANT_REF_ARG, arg=arg)
                     self.register_symbol(arg, value)
                 elif port is FuncPortType.by_value:
                     dt = value.data_type
                     if not isinstance(dt, Storable):
-                        self.error_c(ErrorType.UNSUPPORTED_ARG_TYPE,
-                                     arg=arg, arg_type=str(dt))
+                        raise Error(ErrorType.UNSUPPORTED_ARG_TYPE,
+                                    arg=arg, arg_type=str(dt))
                     # The body may assign any value of the declared type
                     declared = func.arg_handler.arg_types[arg]
                     if isinstance(declared, Storable):
@@ -1242,12 +1242,16 @@ class Generator(ASTVisitor):
                 else:
                     assert port is FuncPortType.const
                     if not isinstance(value, ConstExpr):
-                        self.error_c(ErrorType.ARG_NOT_CONST, arg=arg)
+                        raise Error(ErrorType.ARG_NOT_CONST, arg=arg)
                     self.register_symbol(arg, value)
             # Visit body
             file.write_debug("## Start of inline function")
-            for stmt in func.node.body:
-                self.visit(stmt)
+            # The function may be called from another file
+            try:
+                for stmt in func.node.body:
+                    self.visit(stmt)
+            except Error as err:
+                self.error(err)
             file.write_debug("## End of inline function")
             result = self.ctx.inline_result
             rt = func.result_type
@@ -1256,12 +1260,12 @@ class Generator(ASTVisitor):
                 if rt is None or rt.matches_cls(NoneDataType):
                     result = NoneLiteral()
                 else:
-                    self.error_c(ErrorType.NEVER_RESULT)
+                    raise Error(ErrorType.NEVER_RESULT)
             else:
                 got = result.data_type
                 if (rt is not None) and (not rt.matches(got)):
-                    self.error_c(ErrorType.WRONG_RESULT_TYPE,
-                                 expect=str(rt), got=str(got))
+                    raise Error(ErrorType.WRONG_RESULT_TYPE,
+                                expect=str(rt), got=str(got))
         return result, file.commands
 
     def ccall_const_func(self, func: AcaciaCTFunction,
-- 
2.43.0


From 02bdd3b6be0fb88d43e9f869f9d6af5c470c300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 66/74] fix: diagnose code that is nested or calls itself too
 deeply

---
 acaciamc/compiler.py     | 19 +++++++++++++------
 acaciamc/error.py        |  1 +
 acaciamc/lang/en_US.lang |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index c2de31d..04431af 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -171,11 +171,14 @@ class Compiler:
 
         # --- START COMPILE ---
         ## start
-        with self._load_generator(main_path, self.file_main) as generator:
-            generator.parse()
-        ## callback
-        for cb in self._before_finish_cbs:
-            cb(self)
+        try:
+            with self._load_generator(main_path, self.file_main) as generator:
+                generator.parse()
+            ## callback
+            for cb in self._before_finish_cbs:
+                cb(self)
+        except RecursionError:
+            self.raise_error(Error(ErrorType.RECURSION_LIMIT))
         ## add tick.mcfunction
         if self.file_tick.has_content():
             self.output_mgr.new_file(
@@ -489,7 +492,11 @@ class Compiler:
         self._current_file = path
         self._loading_files.append(path)
         try:
-            node = Parser(Tokenizer(src_file, self.cfg.mc_version)).module()
+            parser = Parser(Tokenizer(src_file, self.cfg.mc_version))
+            try:
+                node = parser.module()
+            except RecursionError:
+                parser.error(ErrorType.RECURSION_LIMIT)
         except Error as err:
             if not err.location.file_set():
                 err.location.file = path
diff --git a/acaciamc/error.py b/acaciamc/error.py
index 3b83b50..cc758d1 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -152,6 +152,7 @@ class ErrorType(LocalizedEnum):
     # Compiler
     IO = "error.errortype.io"
     MODULE_NOT_FOUND = "error.errortype.modulenotfound"
+    RECURSION_LIMIT = "error.errortype.recursionlimit"
     CIRCULAR_PARSE = "error.errortype.circularparse"
     # Any; should only be used by binary modules
     ANY = "error.errortype.any"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index fb3303c..7302316 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -226,6 +226,7 @@ error.errortype.interfacepathempty = Empty interface path
 error.errortype.interfacepathinvalidchar = Invalid character {char!r} in interface path
 error.errortype.io = I/O Error: {message}
 error.errortype.modulenotfound = Module not found: "{module}"
+error.errortype.recursionlimit = Code is nested or calls itself too deeply
 error.errortype.circularparse = File {file_!r} seems to call itself
 error.errortype.any = {message}
 
-- 
2.43.0


From 9ba7cbebca58bbc016cb199995d31ee2b4b89d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 67/74] fix: allow absolute positions in const functions

---
 acaciamc/objects/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 7b16b89..bf05de4 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -64,9 +64,9 @@ class PosType(Type):
                 offset.set(1, y, CoordinateType.ABSOLUTE)
                 offset.set(2, z, CoordinateType.ABSOLUTE)
                 inst = Position()
-                new_inst, cmds = (inst.attribute_table.lookup("apply")
-                                  .call([offset], {}, compiler))
-                return new_inst, cmds
+                new_inst, _ = (inst.attribute_table.lookup("apply")
+                               .call([offset], {}, compiler))
+                return new_inst
 
     def datatype_hook(self):
         return PosDataType()
-- 
2.43.0


From 321000cfe578c0b1999330b090db00ac90d5964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 68/74] fix: compile inline functions of other modules with
 their own generator

---
 acaciamc/compiler.py           | 9 +++++++++
 acaciamc/mccmdgen/generator.py | 5 +++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 04431af..52238b0 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -334,6 +334,15 @@ class Compiler:
         """Add a callback before compilation finishes."""
         self._before_finish_cbs.append(callback)
 
+    @contextmanager
+    def compiling(self, generator: Generator):
+        """Compile with `generator` in this context."""
+        old = self.current_generator, self._current_file
+        self.current_generator = generator
+        self._current_file = generator.file_name
+        yield
+        self.current_generator, self._current_file = old
+
     def save_position(self) -> Callable[[], ContextManager[None]]:
         """Return a context manager factory that makes the code in its
         context (usually in a `before_finish` callback) compile as if it
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 0afd84e..1392f12 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1248,8 +1248,9 @@ class Generator(ASTVisitor):
             file.write_debug("## Start of inline function")
             # The function may be called from another file
             try:
-                for stmt in func.node.body:
-                    self.visit(stmt)
+                with self.compiler.compiling(self):
+                    for stmt in func.node.body:
+                        self.visit(stmt)
             except Error as err:
                 self.error(err)
             file.write_debug("## End of inline function")
-- 
2.43.0


From 4a27b2454ed2a05eb3d79532be3dbdce347e6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 69/74] fix: report wrong constant arguments that are stored in
 variables

---
 acaciamc/objects/functions.py | 2 +-
 acaciamc/tools/axe.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 2588e4d..26dd676 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -328,7 +328,7 @@ class CTArgHandler(ArgumentHandler[
         if not dt.is_typeof(v):
             # Try implicit type conversion
             try:
-                new_value = value.cimplicitcast(dt)
+                new_value = v.cimplicitcast(dt)
             except InvalidOpError:
                 raise Error(ErrorType.WRONG_ARG_TYPE, arg=arg,
                             expect=dt.name, got=v.cdata_type.name)
diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 66d660f..d74c6e0 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -402,7 +402,7 @@ def _exprrepr(expr: _EXPR_T) -> str:
     if isinstance(expr, acacia.AcaciaExpr):
         return str(expr.data_type)
     assert isinstance(expr, (acaciact.CTObj, acaciact.CTObjPtr))
-    return expr.cdata_type.name
+    return abs(expr).cdata_type.name
 
 class LiteralInt(UTyped):
     """Accepts an integer literal and converts it to Python `int`.
-- 
2.43.0


From 12cd91636b568590fc2392d3acabda8a99f97ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 70/74] fix: do not exhaust the stack when optimizing long call
 chains

---
 acaciamc/mccmdgen/optimizer.py | 45 ++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 6f1964f..a15c606 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -33,14 +33,13 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                 refs.remove(None)
             ref_map[file] = refs
         visited = set()
-        def _visit(file: cmds.MCFunctionFile):
-            if file in visited:
-                return
-            visited.add(file)
-            for ref in ref_map[file]:
-                _visit(ref)
-        for file in self.entry_files():
-            _visit(file)
+        # Call chains can be long; do not visit recursively
+        pending = list(self.entry_files())
+        while pending:
+            file = pending.pop()
+            if file not in visited:
+                visited.add(file)
+                pending.extend(ref_map[file])
         self.files = [file for file in self.files if file in visited]
 
     @property
@@ -112,7 +111,6 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
         #     print("Inlining %s, called by %s at %d" % (
         #         callee.get_path(), caller.get_path(), caller_index
         #     ))
-        merged: Set[cmds.MCFunctionFile] = set()
         def _need_tmp(subcmds, commands: List[cmds.Command]) -> bool:
             slots = set()
             for subcmd in subcmds:
@@ -133,15 +131,14 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                     if command.scb_did_assign(slot):
                         return True
             return False
+        callees: Dict[cmds.MCFunctionFile, List[cmds.MCFunctionFile]] = {}
+        for callee, (caller, _, _) in todo.items():
+            callees.setdefault(caller, []).append(callee)
         def _merge(caller: cmds.MCFunctionFile):
-            if caller in merged:
-                return
-            merged.add(caller)
+            # Callees of `caller` must have been merged.
             tasks: List[Tuple[int, cmds.MCFunctionFile, bool]] = []
-            for callee, (caller_got, caller_index, ensure_l1) in todo.items():
-                if caller_got != caller:
-                    continue
-                _merge(callee)
+            for callee in callees.get(caller, ()):
+                _, caller_index, ensure_l1 = todo[callee]
                 tasks.append((caller_index, callee, ensure_l1))
             tasks.sort(key=lambda x: x[0], reverse=True)
             for index, callee, ensure_len1 in tasks:
@@ -182,9 +179,19 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                 inserts.append(cmds.Comment("## Inline of %s ended" % fp))
                 caller.commands[index : index+1] = inserts
                 self.files.remove(callee)
-        for caller, _, _ in todo.values():
-            if caller not in todo:
-                _merge(caller)
+        for root in callees:
+            if root in todo:
+                continue
+            # Call chains can be long; do not merge recursively
+            pending = [(root, iter(callees[root]))]
+            while pending:
+                caller, rest = pending[-1]
+                callee = next(rest, None)
+                if callee is None:
+                    pending.pop()
+                    _merge(caller)
+                elif callee in callees:
+                    pending.append((callee, iter(callees[callee])))
 
     def opt_execute_as_ats(self):
         """Remove "as @s" in /execute commands. """
-- 
2.43.0


From 8d95b30019d2879d151d7b99d49b3dba72c2a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 71/74] fix: diagnose inline virtual methods that call
 themselves endlessly

---
 acaciamc/compiler.py          |  3 +++
 acaciamc/objects/functions.py | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index 52238b0..48e3448 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -150,6 +150,9 @@ class Compiler:
         self._cached_modules: List[CachedModule] = []
         self._loading_files = []  # paths of Acacia modules that are loading
         self._before_finish_cbs = []  # callbacks to run before finish
+        # How many calls of virtual methods contain the code that is
+        # being generated before finish
+        self.virtual_call_depth = 0
         self._entity_template_id_max = 0  # max id of entity template
         self.etemplate_id_scb = self.add_scoreboard()
 
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 26dd676..df7b65a 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -55,6 +55,7 @@ from typing import (
     TYPE_CHECKING, List, Dict, Union, Callable, Tuple, Optional, Generic,
     TypeVar, Any, ContextManager
 )
+import sys
 from abc import abstractmethod
 
 from acaciamc.error import *
@@ -502,7 +503,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             ]] = {}
         self.files: List[Tuple[
             ARGS_T, KEYWORDS_T, cmds.MCFunctionFile,
-            Callable[[], ContextManager[None]]
+            Callable[[], ContextManager[None]], int
         ]] = []
         self.result_var = result_var
         self.func_repr = self.name
@@ -528,12 +529,18 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             self.impls[definition] = (bound_method, [template], get_self_var)
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
+        # Inline methods may call themselves without end
+        depth = compiler.virtual_call_depth + 1
+        if depth > sys.getrecursionlimit():
+            raise Error(ErrorType.RECURSION_LIMIT)
         file = cmds.MCFunctionFile()
         # NOTE calls may also be added when code of inline methods is
         # being generated before finish, even after our own callback.
         if not self.files:
             compiler.before_finish(self._generate)
-        self.files.append((args, keywords, file, compiler.save_position()))
+        self.files.append(
+            (args, keywords, file, compiler.save_position(), depth)
+        )
         compiler.add_file(file)
         # Make a copy of `result_var`, since another call may change it
         result = self.result_var.data_type.new_var(compiler)
@@ -565,7 +572,8 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         else:
             only_bm = only_selfvar = None
         files, self.files = self.files, []
-        for args, keywords, file, position in files:
+        for args, keywords, file, position, depth in files:
+            compiler.virtual_call_depth = depth
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
@@ -619,6 +627,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                         [cmds.ExecuteCond("entity", "@s[tag=%s]" % self_tag)],
                         runs=cmds.InvokeFunction(f)
                     ))
+        compiler.virtual_call_depth = 0
 
 class ConstructorFunction(AcaciaCallable):
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
-- 
2.43.0


From 325f1782d761ca1bfecf7eb79d710e2fac4a1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 72/74] fix: play the simultaneous messages of a MIDI file at
 the same time

---
 acaciamc/modules/music.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/acaciamc/modules/music.py b/acaciamc/modules/music.py
index 24d6143..5692488 100644
--- a/acaciamc/modules/music.py
+++ b/acaciamc/modules/music.py
@@ -396,12 +396,7 @@ class Music(ConstExprCombined):
 
     def main_loop(self):
         # Read messages
-        for i, track in enumerate(self.tracks):
-            if not track:
-                continue
-            message = track[0]
-            if message.time > self.mt - self.last_msg_mt[i]:
-                continue
+        for message in self.due_messages():
             # Handle message
             mtype = message.type
             if mtype == "note_on":
@@ -414,9 +409,6 @@ class Music(ConstExprCombined):
                     self.channel_volume[message.channel] = message.value
             elif mtype == "program_change":
                 self.channel_instrument[message.channel] = message.program
-            # Reset timer
-            self.last_msg_mt[i] = self.mt
-            track.pop(0)
         # Time increment
         self.mt += 1
         # bpm * mt_per_beat is MT per minute. Divide it by 1200 to get MT
@@ -430,6 +422,14 @@ class Music(ConstExprCombined):
             if self.cur_chunk_size >= self.chunk_size:
                 self.new_file()
 
+    def due_messages(self):
+        """Take out all messages of current MT, there may be many."""
+        for i, track in enumerate(self.tracks):
+            while track and track[0].time <= self.mt - self.last_msg_mt[i]:
+                # Reset timer
+                self.last_msg_mt[i] = self.mt
+                yield track.pop(0)
+
     def new_file(self):
         self.cur_file = cmds.MCFunctionFile()
         self.files.append(self.cur_file)
-- 
2.43.0


From 7d8323a7f171d8ba8f66ba5e9f0d67d01b66dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 73/74] fix: a new Music does not go on playing

---
 acaciamc/modules/music.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/acaciamc/modules/music.py b/acaciamc/modules/music.py
index 5692488..4ed105e 100644
--- a/acaciamc/modules/music.py
+++ b/acaciamc/modules/music.py
@@ -262,11 +262,13 @@ class MusicType(Type):
                 listener_str = "@a"
             else:
                 listener_str = listener.to_str()
-            return Music(
+            res = Music(
                 midi, listener_str, looping_info, note_offset,
                 chunk_size, speed, volume, channel_volume, instrument,
                 compiler
             )
+            # Not playing until `play` is called
+            return res, res.timer_reset()
 
     def datatype_hook(self):
         return MusicDataType()
@@ -339,6 +341,7 @@ class Music(ConstExprCombined):
         while not self.is_finished():
             self.main_loop()
         GT_LEN = self.gt_int  # Length of music in GT
+        self.length = GT_LEN
         # The last file may be useless
         if not self.files[-1].has_content():
             self.files.pop()
@@ -391,8 +394,10 @@ class Music(ConstExprCombined):
         @axe.chop
         def _stop(compiler):
             """.stop(): Stop the music"""
-            commands = [cmds.ScbSetConst(self.timer.slot, GT_LEN + 2)]
-            return resultlib.commands(commands)
+            return resultlib.commands(self.timer_reset())
+
+    def timer_reset(self) -> CMDLIST_T:
+        return [cmds.ScbSetConst(self.timer.slot, self.length + 2)]
 
     def main_loop(self):
         # Read messages
-- 
2.43.0


From e097c207bc43f631f06256d5bd2a626b3423e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 74/74] fix: diagnose truncated MIDI files

---
 acaciamc/modules/music.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/music.py b/acaciamc/modules/music.py
index 4ed105e..39fc42a 100644
--- a/acaciamc/modules/music.py
+++ b/acaciamc/modules/music.py
@@ -239,11 +239,12 @@ class MusicType(Type):
                  channel_volume: Dict[int, float], instrument: Dict[int, str]):
             try:
                 midi = mido.MidiFile(path)
-            except OSError as err:
+            except (OSError, EOFError) as err:
                 raise Error(
                     ErrorType.IO,
                     message=localize("modules.music.doinit.midiparser")
-                        % err.strerror
+                        % (getattr(err, "strerror", None)
+                           or str(err) or "unexpected end of file")
                 )
             if speed <= 0:
                 raise axe.ArgumentError(
-- 
2.43.0

