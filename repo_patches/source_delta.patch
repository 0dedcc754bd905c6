From ec2daa1ca944997ec742c128fb046f31e0252da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 01/61] fix: pass the compiler when an int literal or variable
 is added to or multiplied by an operation group

---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8bfe8c7..f5fa968 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -558,7 +558,7 @@ class IntOpGroup(AcaciaExpr):
     def _r_add_mul(self, name: str, other, compiler):
         # a (+ or *) b is b (+ or *) a
         if isinstance(other, (IntLiteral, IntVar)):
-            return getattr(self, name)(other)
+            return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
     def _r_sub_div_mod(self, other, name, compiler):
-- 
2.43.0


From 5fff5bee3ba47def2407a491c42a23227d761779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 02/61] fix: parameter order of IntOpGroup._r_sub_div_mod, so 1
 - (a + b) compiles

---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index f5fa968..8847ca3 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -561,7 +561,7 @@ class IntOpGroup(AcaciaExpr):
             return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
-    def _r_sub_div_mod(self, other, name, compiler):
+    def _r_sub_div_mod(self, name: str, other, compiler):
         # Convert `other` to `IntOpGroup` and use this to handle this
         # operation.
         if isinstance(other, (IntLiteral, IntVar)):
-- 
2.43.0


From 8aa98405065ab512e9afde22c6d5b5db24d7cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 03/61] fix: augmented assignment of an operation group to an
 int variable

---
 acaciamc/objects/integer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8847ca3..9ed5331 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -353,11 +353,12 @@ class IntVar(VarValue):
         """
         # In this condition, we convert a (op)= b to a = a (op) b
         ## Calculate
-        value = getattr(self, STR2METHOD[operator])(other, compiler)
+        group = IntOpGroup.from_intexpr(self)
+        value = getattr(group, STR2METHOD[operator])(other, compiler)
         ## Export
         tmp = IntVar.new(compiler, tmp=True)
         res = value.export(tmp, compiler)
-        res.extend(tmp.export(self))
+        res.extend(tmp.export(self, compiler))
         return res
 
     iadd = partialmethod(_iadd_sub, '+')
-- 
2.43.0


From 406a3721c41188776b50cece9add6383e1fd5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 04/61] fix: unary minus of a non-constant int

---
 acaciamc/objects/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 9ed5331..f4aafd1 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -528,7 +528,7 @@ class IntOpGroup(AcaciaExpr):
 
     def unaryneg(self, compiler):
         # -expr = expr * (-1)
-        return self.mul(compiler.add_int_const(-1))
+        return self.mul(compiler.add_int_const(-1), compiler)
 
     ## BINARY (SELF ... OTHER) OPERATORS
 
-- 
2.43.0


From b5addc0efd9b95cd85cf0f2d5a19353f8bb22137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 05/61] fix: evaluate an if condition once even when it is a
 variable that the branches assign

---
 acaciamc/mccmdgen/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 03766b8..f48fd03 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -407,8 +407,12 @@ class Generator(ASTVisitor):
             )
             return
         # Fallback
-        dep, condition_var = to_BoolVar(condition, self.compiler, tmp=False)
-        self.current_file.extend(dep)
+        # NOTE Always evaluate into a new variable: the "then" branch may
+        # change the variables in the condition.
+        condition_var = BoolVar.new(self.compiler)
+        self.current_file.extend(
+            condition.export(condition_var, self.compiler)
+        )
         if has_then:
             self.current_file.write(cmds.Execute(
                 [cmds.ExecuteScoreMatch(condition_var.slot, "1")],
-- 
2.43.0


From 5eb7b6a7c1f9661e79394f4c12534c41f7c57d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 06/61] fix: run the commands of a while condition before every
 test of it

---
 acaciamc/mccmdgen/generator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index f48fd03..7a681aa 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -426,7 +426,11 @@ class Generator(ASTVisitor):
 
     def visit_While(self, node: While):
         # condition
-        condition: AcaciaExpr = self.visit(node.condition)
+        # The commands needed by the condition (e.g. function calls) have
+        # to be run every time before the condition is tested.
+        condition_file = cmds.MCFunctionFile()
+        with self.set_mcfunc_file(condition_file):
+            condition: AcaciaExpr = self.visit(node.condition)
         if not condition.data_type.matches_cls(BoolDataType):
             self.error_c(ErrorType.WRONG_WHILE_CONDITION,
                          got=str(condition.data_type))
@@ -440,6 +444,7 @@ class Generator(ASTVisitor):
         if isinstance(condition, BoolLiteral):
             # optimize when condition is known at compile time
             if condition.value is False:
+                self.current_file.extend(condition_file.commands)
                 self.write_debug(
                     'Skipped because the condition always evaluates to False'
                 )
@@ -453,9 +458,13 @@ class Generator(ASTVisitor):
             dep, cond_var = to_BoolVar(condition, self.compiler, tmp=False)
             subcmds = [cmds.ExecuteScoreMatch(cond_var.slot, "1")]
         # triggering the function
-        if body_file.has_content():
+        if condition_file.has_content() and not body_file.has_content():
+            # e.g. `while f(): pass`
+            self.compiler.add_file(body_file)
+        if body_file.has_content() or condition_file.has_content():
             body_file.write_debug('## Part 2. Recursion')
             for file in (body_file, self.current_file):
+                file.extend(condition_file.commands)
                 file.extend(dep)
                 file.write(cmds.Execute(
                     subcmds, runs=cmds.InvokeFunction(body_file)
-- 
2.43.0


From 8cb9239963683b66615adef4078256915b8bc3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 07/61] fix: x > int.MAX and x < int.MIN emitted a number that
 is out of range

---
 acaciamc/objects/boolean.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c28d029..740f8bc 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -296,6 +296,12 @@ class ScbMatchesCompare(CompareBase):
             Operator.equal_to: str(self.literal),
             Operator.unequal_to: '!%d' % self.literal
         }[self.operator]
+        if (
+            (self.operator is Operator.greater and self.literal == INT_MAX)
+            or (self.operator is Operator.less and self.literal == INT_MIN)
+        ):
+            # Never true; the limit would be out of range of a score
+            match_range = '!%d..%d' % (INT_MIN, INT_MAX)
         res.append(cmds.ExecuteScoreMatch(self.slot, match_range))
         return self.dependencies.copy(), res
 
-- 
2.43.0


From 1585ee7118bf55fa06552fb38c72b2955872e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 08/61] fix: contradictory ranges of nested and expressions
 emitted an invalid range

---
 acaciamc/objects/boolean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 740f8bc..c87087a 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -446,6 +446,8 @@ def new_and_group(operands: List[AcaciaExpr], compiler) -> AcaciaExpr:
                 rng = ranges.setdefault(slot, [INT_MIN, INT_MAX])
                 rng[0] = max(min_, rng[0])
                 rng[1] = min(max_, rng[1])
+                if rng[0] > rng[1]:  # must be False
+                    return BoolLiteral(False)
             operand = None
         elif isinstance(operand, NotWildBool):
             # `a and not (b and c)` needs a tmp var:
-- 
2.43.0


From 066812ae7a6feb11e18fb1283ba705f898ffb0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:49 +0000
Subject: [PATCH 09/61] fix: re-assigning a struct or entity with a constructor
 whose arguments use the old value

---
 acaciamc/mccmdgen/generator.py      |  9 ++++++---
 acaciamc/objects/functions.py       | 10 ++++++++++
 acaciamc/objects/struct_template.py | 18 ++++++++++++++++--
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 7a681aa..c6e3bba 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -234,7 +234,7 @@ class Generator(ASTVisitor):
         var = dt.new_var(self.compiler)
         self.register_symbol(node.target, var)
         if node.value is not None:
-            self._assign(var, node.value)
+            self._assign(var, node.value, is_init=True)
 
     def visit_AutoVarDef(self, node: AutoVarDef):
         is_ctor: bool = False
@@ -258,7 +258,8 @@ class Generator(ASTVisitor):
         if value is not None and not is_ctor:
             self.current_file.extend(value.export(var, self.compiler))
 
-    def _assign(self, target: AcaciaExpr, value_node: Expression):
+    def _assign(self, target: AcaciaExpr, value_node: Expression,
+                is_init=False):
         if not target.is_assignable():
             self.error_c(ErrorType.INVALID_ASSIGN_TARGET)
         value_type: Optional[DataType] = None
@@ -285,8 +286,10 @@ class Generator(ASTVisitor):
         # assign
         if value is not None:
             commands = value.export(target, self.compiler)
-        else:
+        elif is_init:
             commands = func.initialize(target, self.compiler, **ctor_kwds)
+        else:
+            commands = func.reinitialize(target, self.compiler, **ctor_kwds)
         # write commands
         self.current_file.extend(commands)
 
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f228af1..e714571 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -603,6 +603,16 @@ class ConstructorFunction(AcaciaCallable):
         """Initialize the `instance` and return commands to execute."""
         pass
 
+    def reinitialize(self, instance, compiler, **kwds) -> CMDLIST_T:
+        """
+        Same as `initialize`, but `instance` may already have a value
+        and the arguments may depend on that value.
+        """
+        new_instance = instance.data_type.new_var(compiler)
+        commands = list(self.initialize(new_instance, compiler, **kwds))
+        commands.extend(new_instance.export(instance, compiler))
+        return commands
+
     def pre_initialize(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) \
             -> Tuple[Storable, Dict[str, Any]]:
         """
diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 71ef4a7..65e2699 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -54,7 +54,7 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
 
     def initialize(
         self, instance: "Struct", compiler,
-        args: "ARGS_T", keywords: "KEYWORDS_T"
+        args: "ARGS_T", keywords: "KEYWORDS_T", use_tmp=False
     ):
         @axe.chop
         @axe.star
@@ -64,10 +64,24 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
         ])
         def _call_me(compiler, **fields: Optional[AcaciaExpr]):
             commands = []
+            tmps = {}
             for name, value in fields.items():
                 if value is None:
                     continue
-                commands.extend(value.export(instance.vars[name], compiler))
+                target = instance.vars[name]
+                if use_tmp:
+                    tmps[name] = target = self.field_types[name].new_var(
+                        compiler
+                    )
+                commands.extend(value.export(target, compiler))
+            for name, tmp in tmps.items():
+                commands.extend(tmp.export(instance.vars[name], compiler))
             return resultlib.commands(commands)
         _, c = BinaryFunction(_call_me).call(args, keywords, compiler)
         return c
+
+    def reinitialize(self, instance: "Struct", compiler, args, keywords):
+        # Evaluate all values before changing any field.
+        return self.initialize(
+            instance, compiler, args, keywords, use_tmp=True
+        )
-- 
2.43.0


From c4684a3758727fd84444221e7938043ffa45f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 10/61] fix: method resolution of entity templates with more
 than one base

---
 acaciamc/objects/entity_template.py | 40 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 054ec5a..19cfe57 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -24,7 +24,8 @@ __all__ = [
 ]
 
 from typing import (
-    List, Tuple, Dict, Union, Optional, Callable, NamedTuple, TYPE_CHECKING
+    List, Tuple, Dict, Set, Union, Optional, Callable, NamedTuple,
+    TYPE_CHECKING
 )
 from itertools import chain
 
@@ -103,16 +104,17 @@ class _MethodDispatcher:
         for bound in self.bound:
             bound.add_implementation(template, implementation, get_self_var)
 
-    def register_inherit(self, template: "EntityTemplate",
-                         parent: "EntityTemplate"):
-        for impl, (templates, get_self) in self.impls.items():
-            if parent in templates:
-                templates.append(template)
-                for bound in self.bound:
-                    bound.add_implementation(template, impl, get_self)
-                break
-        else:
-            unreachable("Base not found")
+    def register_inherit(self, template: "EntityTemplate"):
+        # `template` uses the implementation of the first template in
+        # its MRO that defines this method.
+        for parent in template.mro_[1:]:
+            for impl, (templates, get_self) in self.impls.items():
+                if templates[0] is parent:
+                    templates.append(template)
+                    for bound in self.bound:
+                        bound.add_implementation(template, impl, get_self)
+                    return
+        unreachable("Base not found")
 
     def bind_to(self, entity: "_EntityBase"):
         res = BoundVirtualMethod(
@@ -254,6 +256,8 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
         self.method_dispatchers: Dict[str, _MethodDispatcher] = {}
         self.simple_methods: Dict[str, _SimpleMethod] = {}
         self.static_methods: Dict[str, AcaciaCallable] = {}
+        # Names of the static methods that are not inherited
+        self.own_statics: Set[str] = set()
         self.mro_: List[EntityTemplate] = [self]  # Method Resolution Order
         # Runtime identification number
         # Mark which template an entity is using at runtime.
@@ -320,12 +324,17 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                 if m_virtual.setdefault(method, disp) is not disp:
                     raise Error(ErrorType.MULTIPLE_VIRTUAL_METHOD,
                                 method=method)
+            # A template also records the methods it inherits. Do not let
+            # these hide the methods defined by templates that are after
+            # that template in our MRO but before the original definer.
             for method, mgr in parent.simple_methods.items():
                 _check(m_virtual, m_static, method)
-                m_simple[method] = mgr
+                if method not in m_simple or mgr.template is parent:
+                    m_simple[method] = mgr
             for method, impl in parent.static_methods.items():
                 _check(m_virtual, m_simple, method)
-                m_static[method] = impl
+                if method not in m_static or method in parent.own_statics:
+                    m_static[method] = impl
         ## Make sure field names do not conflict with method names
         for attr in attr_list:
             if attr in m_virtual or attr in m_simple or attr in m_static:
@@ -340,7 +349,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                     raise Error(ErrorType.OVERRIDE_QUALIFIER,
                                 got=qualifier.localized, name=method)
                 _check_override(implementation, method)
-                disp = parent.method_dispatchers[method]
+                disp = m_virtual[method]
                 self.method_dispatchers[method] = disp
                 disp.register(self, implementation)
                 continue
@@ -354,6 +363,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                 if method in m_simple:
                     raise Error(ErrorType.STATIC_OVERRIDE_INST, name=method)
                 self.static_methods[method] = implementation
+                self.own_statics.add(method)
             elif qualifier is MethodQualifier.virtual:
                 if method in m_static:
                     raise Error(ErrorType.INST_OVERRIDE_STATIC, name=method)
@@ -373,7 +383,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             if method not in self.method_dispatchers:
                 # Inherited override methods
                 self.method_dispatchers[method] = disp
-                disp.register_inherit(self, parent)
+                disp.register_inherit(self)
         for method, mgr in m_simple.items():
             if method not in self.simple_methods:
                 # Inherited simple methods
-- 
2.43.0


From 0b298708c7c5ff08904792c80d24c30db3caa08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 11/61] fix: copy the result of a virtual method call

---
 acaciamc/objects/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index e714571..0677cdf 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -513,11 +513,15 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         file = cmds.MCFunctionFile()
         self.files.append((args, keywords, file))
         compiler.add_file(file)
-        return self.result_var, [
+        # Make a copy of `result_var` since it is shared by all calls
+        result = self.result_var.data_type.new_var(compiler)
+        result.is_temporary = True
+        return result, [
             cmds.Execute(
                 [cmds.ExecuteEnv("as", self.object.to_str())],
                 cmds.InvokeFunction(file)
-            )
+            ),
+            *self.result_var.export(result, compiler)
         ]
 
     def _generate(self, compiler: "Compiler"):
-- 
2.43.0


From 646fc7d4a481eef561b55885b3ddd0e1f176ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 12/61] fix: keep the dependencies of both operands when adding
 formatted strings

---
 acaciamc/modules/print.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index d8771ce..6fe0515 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -168,6 +168,7 @@ class FString(ConstExprCombined):
             res.rawtext.append(cmds.RawtextText(other.value))
         elif isinstance(other, FString):
             res.rawtext.extend(other.rawtext)
+            res.dependencies.extend(other.dependencies)
         else:
             raise InvalidOpError
         return res
-- 
2.43.0


From 955210f4fb52d550c367ff28943b4ec50e9d81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 13/61] fix: math.mod is wrong when x % y + y overflows

---
 acaciamc/modules/_math.aca | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/_math.aca b/acaciamc/modules/_math.aca
index 7415838..cd97fac 100644
--- a/acaciamc/modules/_math.aca
+++ b/acaciamc/modules/_math.aca
@@ -8,7 +8,11 @@ def mod(x: int, y: int) -> int:
      * -10 % 3 == -1 while mod(-10, 3) == 2
      * -10 % -3 == mod(-10, -3) == -1
      *#
-    result (x % y + y) % y
+    # `(x % y + y) % y` is not used here because `x % y + y` may overflow.
+    res := x % y
+    if (res > 0 and y < 0) or (res < 0 and y > 0):
+        res += y
+    result res
 
 def floordiv(x: int, y: int) -> int:
     #**
-- 
2.43.0


From f998763c1c222c4888cb0eef48de73ec6c38628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH 14/61] fix: schedule.register_loop with an interval that takes
 several commands to compute

---
 acaciamc/modules/schedule.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 2e00f21..4e8a165 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -217,7 +217,11 @@ def register_loop(compiler: "Compiler", target: AcaciaCallable,
     init_cmds = [cmds.ScbSetConst(timer.slot, 0)]
     # Tick loop
     ## Call on times up AND reset timer
-    tick_commands.extend(interval.export(timer, compiler))
+    # The timer may only be changed by the last command since all the
+    # commands are guarded by the timer.
+    dependencies, interval_var = to_IntVar(interval, compiler)
+    tick_commands.extend(dependencies)
+    tick_commands.extend(interval_var.export(timer, compiler))
     compiler.file_tick.extend(
         cmds.execute(
             [cmds.ExecuteScoreMatch(timer.slot, "..0")], runs=cmd
-- 
2.43.0


From c98773421436e25ade4bcf9ea506d2440042ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH 15/61] fix: report a struct field that is defined by two bases
 instead of crashing

---
 acaciamc/objects/struct_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 65e2699..2cfb87c 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -36,7 +36,7 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
         for base in bases:
             for name, type_ in base.field_types.items():
                 if name in self.field_types:
-                    raise Error(ErrorType.SFIELD_MULTIPLE_DEFS, attr=name)
+                    raise Error(ErrorType.SFIELD_MULTIPLE_DEFS, name=name)
                 self.field_types[name] = type_
 
     def datatype_hook(self):
-- 
2.43.0


From a14a586e239cb37886eda69e7a25fe9467facb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH 16/61] fix: only accept identifiers as argument names in
 function definitions

---
 acaciamc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/parser.py b/acaciamc/parser.py
index 41f886e..b04ddab 100644
--- a/acaciamc/parser.py
+++ b/acaciamc/parser.py
@@ -937,7 +937,7 @@ class Parser:
             qualifier = self._func_port_qualifier(allowed_ports)
             # read name
             name = self.current_token.value
-            self.eat()  # eat identifier
+            self.eat(TokenType.identifier)
             # read type
             type_ = None
             if self.current_token.type is TokenType.colon:
-- 
2.43.0


From 80c734fd42f68474ca5463fc880ed42f2029b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH 17/61] fix: report arguments that can not be converted between
 compile time and run time instead of crashing

---
 acaciamc/tools/axe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 9ce908c..66d660f 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -782,7 +782,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
         elif isinstance(origin, acacia.ConstExpr):
             convert = lambda: converter.cconvert(origin.to_ctexpr())
         else:
-            raise _PreconvertError(_PE_NOT_CONST)
+            raise _PreconvertError(_PE_NOT_CONST, origin)
     else:
         if isinstance(converter, CTConverter):
             convert = lambda: converter.cconvert(origin)
@@ -790,7 +790,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
             try:
                 origin_rt = abs(origin).to_rt()
             except InvalidOpError:
-                raise _PreconvertError(_PE_NOT_RT)
+                raise _PreconvertError(_PE_NOT_RT, origin)
             convert = lambda: converter.convert(origin_rt)
     return convert
 
-- 
2.43.0


From f5512a62eef976c3fe17645153edda90c50ab5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 18/61] fix: int(b) stored its result in a score that a later
 function call may overwrite

---
 acaciamc/objects/integer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index f4aafd1..c7464d9 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -139,7 +139,10 @@ class IntType(Type):
             # Fallback: convert `b` to `BoolVar`,
             # Since 0 is used to store False, 1 is for True, just
             # "cast" it to `IntVar`.
-            dependencies, bool_var = to_BoolVar(b, compiler)
+            # The result outlives these commands (a function call that is
+            # evaluated later may come in between), so do not store it
+            # in a tmp score that the function may use, too.
+            dependencies, bool_var = to_BoolVar(b, compiler, tmp=False)
             res = IntVar(bool_var.slot)
             res.is_temporary = True
             return res, dependencies
-- 
2.43.0


From a395bb1cba2d40e939847dfb80f57ce8e05803ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:20 +0000
Subject: [PATCH 19/61] fix: scores written through different selectors may be
 the same score

---
 acaciamc/mccmdgen/cmds.py   | 37 ++++++++++++++++++++++++++-----------
 acaciamc/modules/math.py    |  2 +-
 acaciamc/objects/boolean.py |  3 +++
 acaciamc/objects/integer.py |  2 +-
 4 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 33069a3..6b31a1d 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -42,6 +42,18 @@ class ScbSlot(NamedTuple):
             mc_str(self.objective)
         )
 
+    def may_alias(self, other: "ScbSlot") -> bool:
+        """Return if the 2 slots may refer to the same score. Selectors
+        written differently can still match the same entity.
+        """
+        if self.objective != other.objective:
+            return False
+        return (
+            self.target == other.target
+            or self.target.startswith(("@", "*"))
+            or other.target.startswith(("@", "*"))
+        )
+
 class Command(metaclass=ABCMeta):
 
     is_debug = False  # only write when -d is set
@@ -93,7 +105,7 @@ class ScbSetConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbAddConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -106,7 +118,7 @@ class ScbAddConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbRemoveConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -119,7 +131,7 @@ class ScbRemoveConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbOp(Enum):
     ADD_EQ = "+="
@@ -147,15 +159,17 @@ class ScbOperation(Command):
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (slot.may_alias(self.operand1)
+                or slot.may_alias(self.operand2))
         else:
-            return slot == self.operand1
+            return slot.may_alias(self.operand1)
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (slot.may_alias(self.operand1)
+                or slot.may_alias(self.operand2))
         else:
-            return slot == self.operand2
+            return slot.may_alias(self.operand2)
 
 class ScbRandom(Command):
     def __init__(self, target: ScbSlot, min_: int, max_: int):
@@ -170,7 +184,7 @@ class ScbRandom(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbObjAdd(Command):
     def __init__(self, name: str, display_name: Optional[str] = None):
@@ -377,7 +391,8 @@ class ExecuteScoreComp(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand1 or slot == self.operand2
+        return (slot.may_alias(self.operand1)
+            or slot.may_alias(self.operand2))
 
     def resolve(self) -> str:
         return "%s score %s %s %s" % (
@@ -395,7 +410,7 @@ class ExecuteScoreMatch(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand
+        return slot.may_alias(self.operand)
 
     def resolve(self) -> str:
         return "%s score %s matches %s" % (
@@ -549,7 +564,7 @@ class RawtextOutput(Command):
         )
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot in self.score_slots
+        return any(slot.may_alias(s) for s in self.score_slots)
 
 class TitlerawTimes(Command):
     def __init__(self, player: str, fade_in: int, stay: int, fade_out: int):
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 4a448fc..71dbf71 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -36,7 +36,7 @@ class IntXOpSelf(IntOp):
         self.x = x
 
     def scb_did_assign(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.x
+        return slot.may_alias(self.x)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(STR2SCBOP[self.op], self.x, var.slot)]
diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c87087a..fdd5c97 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -235,6 +235,9 @@ class NotBoolVar(AcaciaExpr):
                 cmds.Execute([cmds.ExecuteScoreMatch(var.slot, "2")],
                              cmds.ScbSetConst(var.slot, 0))
             ]
+        elif var.slot.may_alias(self.slot):
+            tmp = BoolVar.new(compiler, tmp=True)
+            return [*self.export(tmp, compiler), *tmp.export(var, compiler)]
         else:
             return [
                 cmds.ScbSetConst(var.slot, 0),
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index c7464d9..0111972 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -429,7 +429,7 @@ class IntOpVar(IntOp):
         self.slot = slot
 
     def scb_did_read(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.slot
+        return slot.may_alias(self.slot)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(self.op, var.slot, self.slot)]
-- 
2.43.0


From 5f324e563c61560fdd8d01eca9677287e6ebd510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:20 +0000
Subject: [PATCH 20/61] fix: a raw command in an inlined function may assign a
 score of the condition

---
 acaciamc/mccmdgen/cmds.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 6b31a1d..297865a 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -94,6 +94,11 @@ class Cmd(Command):
     def resolve(self) -> str:
         return self.value
 
+    def scb_did_assign(self, slot: ScbSlot) -> bool:
+        # We do not parse raw commands: assume that those that can
+        # reach the scoreboard do modify the slot.
+        return any(x in self.value for x in ("scoreboard", "function"))
+
 class ScbSetConst(Command):
     def __init__(self, target: ScbSlot, value: int):
         self.target = target
-- 
2.43.0


From f62b57818a7d94497e0b379b6f3ae0271cb3dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 21/61] fix: the optimizer deleted entry functions that have no
 commands

---
 acaciamc/mccmdgen/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 8345daf..d23d0fa 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -201,8 +201,9 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
     def opt_empty_functions(self):
         """Remove definition and invoke of empty functions."""
         removed = set()
+        entries = set(self.entry_files())
         for i, file in reversed(tuple(enumerate(self.files))):
-            if not file.has_content():
+            if not file.has_content() and file not in entries:
                 removed.add(file)
                 del self.files[i]
         for file in self.files:
-- 
2.43.0


From 0957f01f8078d305820427e976abfd6c9df14c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 22/61] fix: math.randint with min > max emitted an invalid
 random range

---
 acaciamc/lang/en_US.lang | 4 ++++
 acaciamc/modules/math.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index b8cd93a..e6e7fa2 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -325,6 +325,10 @@ modules.builtins.swap.differenttype = must have the same type as the other varia
 
 ### modules/math.py ###
 
+## randint ##
+
+modules.math.randint.empty = must be at least "min" ({0} is greater than {1})
+
 ##　pow ##
 
 modules.math.pow.negative = must be a non-negative integer
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 71dbf71..7571f94 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -28,6 +28,10 @@ def _randint(compiler, min_: int, max_: int):
     randint(const min: int, const max: int) -> int
     Get a random integer between `min` and `max` (inclusive).
     """
+    if min_ > max_:
+        raise axe.ArgumentError(
+            'max', localize("modules.math.randint.empty").format(min_, max_)
+        )
     return IntOpGroup(init=IntRandom(min_, max_))
 
 class IntXOpSelf(IntOp):
-- 
2.43.0


From 56a9b9e393234f4a864254b525fe107ad2c9793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 23/61] fix: floats were written in scientific notation, which
 commands do not accept

---
 acaciamc/mccmdgen/cmds.py           | 8 ++++++++
 acaciamc/modules/world.py           | 2 +-
 acaciamc/objects/float_.py          | 3 ++-
 acaciamc/objects/position_offset.py | 3 ++-
 acaciamc/objects/rotation.py        | 2 +-
 5 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 297865a..bee8134 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -3,6 +3,7 @@
 from abc import ABCMeta, abstractmethod
 from enum import Enum
 from typing import List, NamedTuple, Optional, Union, Iterable, Callable, Dict
+from decimal import Decimal
 import json
 
 from acaciamc.constants import TERMINATOR_CHARS
@@ -20,6 +21,13 @@ def mc_str(s: str) -> str:
     else:
         return s
 
+def mc_float(value: float) -> str:
+    """Format `value` without scientific notation, since commands do not
+    accept that.
+    """
+    s = str(value)
+    return format(Decimal(s), "f") if "e" in s else s
+
 def mc_selector(s: str) -> str:
     if s.startswith("@"):
         return s
diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 0643344..8de733f 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -697,7 +697,7 @@ def spread(compiler, target: "MCSelector", center: Position,
         )
     cmd = cmds.Execute(
         center.context, "spreadplayers ~ ~ %s %s %s" % (
-            interval, range_, target.to_str()
+            cmds.mc_float(interval), cmds.mc_float(range_), target.to_str()
         )
     )
     return resultlib.commands([cmd])
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index c86c08c..ea82ef2 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -9,6 +9,7 @@ from acaciamc.tools import axe, cmethod_of
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+from acaciamc.mccmdgen.cmds import mc_float
 from acaciamc.mccmdgen.utils import InvalidOpError
 from .integer import IntLiteral
 from .types import Type
@@ -51,7 +52,7 @@ class Float(ConstExprCombined):
         return Float(float(integer.value))
 
     def __str__(self) -> str:
-        return str(self.value)
+        return mc_float(self.value)
 
     def cunarypos(self):
         return self
diff --git a/acaciamc/objects/position_offset.py b/acaciamc/objects/position_offset.py
index 778205e..7b57425 100644
--- a/acaciamc/objects/position_offset.py
+++ b/acaciamc/objects/position_offset.py
@@ -15,6 +15,7 @@ from acaciamc.tools import axe, cmethod_of, ImmutableMixin, transform_immutable
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+from acaciamc.mccmdgen.cmds import mc_float
 from .types import Type
 
 class CoordinateType(Enum):
@@ -121,7 +122,7 @@ class PosOffset(ConstExprCombined, ImmutableMixin):
 
     def __str__(self) -> str:
         return " ".join(
-            type_.value + str(value)
+            type_.value + mc_float(value)
             for type_, value in zip(self.value_types, self.values)
         )
 
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 98014d5..ca06ca4 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -104,7 +104,7 @@ class Rotation(ConstExprCombined, ImmutableMixin):
                 if arg is None:
                     vh.append("~")
                 else:
-                    vh.append(type_prefix + str(arg))
+                    vh.append(type_prefix + cmds.mc_float(arg))
             self.context.append(cmds.ExecuteEnv("rotated", " ".join(vh)))
             return self
         return _setter
-- 
2.43.0


From 88fcac8a74cede255f213caceb6102ba87531804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 24/61] fix: reject offsets that mix local coordinates with
 others

---
 acaciamc/error.py                   | 1 +
 acaciamc/lang/en_US.lang            | 1 +
 acaciamc/objects/position_offset.py | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/acaciamc/error.py b/acaciamc/error.py
index fabea2c..9afcff4 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -133,6 +133,7 @@ class ErrorType(LocalizedEnum):
     UNINITIALIZED_CONST = "error.errortype.uninitializedconst"
     INVALID_CONST_STMT = "error.errortype.invalidconststmt"
     POS_OFFSET_CTOR_ARG = "error.errortype.posoffsetctorarg"
+    POS_OFFSET_MIXED_LOCAL = "error.errortype.posoffsetmixedlocal"
     INVALID_POS_ALIGN = "error.errortype.invalidposalign"
     LIST_INDEX_OUT_OF_BOUNDS = "error.errortype.listindexoutofbounds"
     MAP_KEY_NOT_FOUND = "error.errortype.mapkeynotfound"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index e6e7fa2..489c0ff 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -206,6 +206,7 @@ error.errortype.virtualoverridesimple = Virtual method "{name}" has the same nam
 error.errortype.uninitializedconst = Uninitialized variable in compile time function
 error.errortype.invalidconststmt = Invalid statement in compile time function
 error.errortype.posoffsetctorarg = At most one of the arguments "{axis}" and "{axis} _abs" can be float
+error.errortype.posoffsetmixedlocal = Local coordinates can not be mixed with other coordinates
 error.errortype.invalidposalign = Invalid position alignment "{align}"
 error.errortype.listindexoutofbounds = List with length {length} got out of bounds index {index}
 error.errortype.mapkeynotfound = Map key not found
diff --git a/acaciamc/objects/position_offset.py b/acaciamc/objects/position_offset.py
index 7b57425..8d63b4a 100644
--- a/acaciamc/objects/position_offset.py
+++ b/acaciamc/objects/position_offset.py
@@ -133,6 +133,8 @@ class PosOffset(ConstExprCombined, ImmutableMixin):
             self.set(1, y, coord_type)
         if z is not None:
             self.set(2, z, coord_type)
+        if 0 < self.value_types.count(CoordinateType.LOCAL) < 3:
+            raise Error(ErrorType.POS_OFFSET_MIXED_LOCAL)
 
     @classmethod
     def local(cls, left: float, up: float, front: float):
-- 
2.43.0


From 467b6e404cc40490a5abbca307526e89a85faacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 25/61] fix: Rot(vertical, horizontal) wrote floats in
 scientific notation

---
 acaciamc/objects/rotation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index ca06ca4..6e7b769 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -51,7 +51,9 @@ class RotType(Type):
             def absolute(cls, compiler, vertical: float, horizontal: float):
                 inst = Rotation()
                 inst.context.append(cmds.ExecuteEnv(
-                    "rotated", "%s %s" % (vertical, horizontal)
+                    "rotated", "%s %s" % (
+                        cmds.mc_float(vertical), cmds.mc_float(horizontal)
+                    )
                 ))
                 return inst
         @cmethod_of(self, "face_entity")
-- 
2.43.0


From 0924f3f54e1d5ab28df3405eef801fac3431bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 26/61] fix: an init file with the name of the main file
 replaced the program

---
 acaciamc/cli.py          | 5 ++++-
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index e5423b4..c1fbfc0 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -162,7 +162,10 @@ def get_config(args) -> Config:
     if args.internal_folder:
         assert_id(args.internal_folder, '--internal-folder')
         kwds["internal_folder"] = args.internal_folder
-    return Config(**kwds)
+    cfg = Config(**kwds)
+    if cfg.split_init and cfg.init_file.lower() == cfg.main_file.lower():
+        fatal(localize("cli.getconfig.initismain") % cfg.init_file)
+    return cfg
 
 def try_rmtree(path: str):
     """
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 489c0ff..3b53452 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -87,6 +87,7 @@ cli.assertid.fatal = option {option}: {msg}
 cli.getconfig.invalidfunctionfolder = invalid name {name} in function folder path: {msg}
 cli.getconfig.invalidmcversion = invalid Minecraft version: %s
 cli.getconfig.mcversiontooold = Minecraft version is too low: %s, at least 1.19.50 expected
+cli.getconfig.initismain = init file and main file can't have the same name: %s
 cli.getconfig.maxinlinetoolow = max inline file size must >= 0: %s
 
 ## try_rmtree ##
-- 
2.43.0


From 2f30ff7e56f07cee93c7d0726089081ddb32c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 27/61] fix: commands of a stored formatted string used scores
 that other statements reuse

---
 acaciamc/modules/print.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 6fe0515..4b3dfd1 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -211,6 +211,10 @@ def _format(compiler, pattern: str, args, kwds):
             _FStrParser(pattern, args, kwds, compiler).parse()
     except _FStrError as err:
         raise Error(ErrorType.ANY, message=str(err))
+    if dependencies:
+        # The fstring may be used by statements other than this one, so
+        # the scores its commands write can't be freed with this one.
+        compiler.current_generator.current_tmp_scores.clear()
     return FString(dependencies, rawtext)
 
 @axe.chop
-- 
2.43.0


From 28e15c0530da20b08857901b442befe16c3d2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 28/61] fix: from-import kept only the last alias of a name
 imported twice

---
 acaciamc/ast.py                | 10 ++++++----
 acaciamc/mccmdgen/generator.py |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/acaciamc/ast.py b/acaciamc/ast.py
index 0af1052..9843805 100644
--- a/acaciamc/ast.py
+++ b/acaciamc/ast.py
@@ -2,7 +2,7 @@
 
 from typing import (
     Union as _Union, List as _List, Optional as _Optional, Dict as _Dict,
-    Iterable as _Iterable
+    Iterable as _Iterable, Tuple as _Tuple
 )
 
 from acaciamc.localization import LocalizedEnum as _LocalizedEnum
@@ -334,9 +334,11 @@ class FromImport(Statement):  # import specific things from a module
     ):
         super().__init__(lineno, col)
         self.meta = meta
-        self.id2name: _Dict[str, str] = {}
-        for name, alias in zip(names, aliases):
-            self.id2name[name] = name if alias is None else alias
+        # (name, alias) pairs; a name may be imported more than once.
+        self.id2name: _List[_Tuple[str, str]] = [
+            (name, name if alias is None else alias)
+            for name, alias in zip(names, aliases)
+        ]
 
 class FromImportAll(Statement):  # import everything in a module
     def __init__(self, meta: ModuleMeta, lineno, col):
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index c6e3bba..ddd775d 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -719,13 +719,13 @@ class Generator(ASTVisitor):
     def visit_FromImport(self, node: FromImport):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
         self.write_debug("Import from %s" % path)
-        for name, alias in node.id2name.items():
+        for name, alias in node.id2name:
             value = self.attribute_of(module, name)
             if value is None:
                 self.error_c(ErrorType.MODULE_NO_ATTRIBUTE,
                              attr=name, module=str(node.meta))
             self.register_symbol(alias, value)
-        self.ctx.scope.no_export.update(node.id2name.values())
+        self.ctx.scope.no_export.update(alias for _, alias in node.id2name)
 
     def visit_FromImportAll(self, node: FromImportAll):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
-- 
2.43.0


From 5f46875f0beb9d19e6349365734ec28037dbaa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 29/61] fix: an outer with_font also styled nested fonts that
 start or end its text

---
 acaciamc/modules/print.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 4b3dfd1..32b4115 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -289,8 +289,9 @@ def _with_font(compiler: "Compiler", text: FString, color: str,
         if isinstance(component, _FontComponent):
             if component.label == "start":
                 start_levels += 1
-                if start_levels == 1 and i > start_i:
-                    scopes.append((start_i, i))
+                if start_levels == 1:
+                    if i > start_i:
+                        scopes.append((start_i, i))
                     start_i = -1
             if component.label == "end":
                 start_levels -= 1
-- 
2.43.0


From f28e23e50ae1800909bd98ad8ff1fda5f43dca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 30/61] fix: print.format("%{}") crashed the compiler instead
 of being reported

---
 acaciamc/modules/print.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 32b4115..675afa1 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -78,7 +78,7 @@ class _FStrParser:
         """Get the expr from an format
         e.g. "0" -> args[0]; "key" -> keywords["key"]
         """
-        if all(c in DIGITS for c in name):
+        if name and all(c in DIGITS for c in name):
             index = int(name)
             try:
                 expr = self.args[index]
-- 
2.43.0


From 2d11e67edbf73efdf5c8bcdacdfa25f2bff2370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 31/61] fix: reporting a wrong argument that is a compile-time
 variable crashed the compiler

---
 acaciamc/tools/axe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 66d660f..d74c6e0 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -402,7 +402,7 @@ def _exprrepr(expr: _EXPR_T) -> str:
     if isinstance(expr, acacia.AcaciaExpr):
         return str(expr.data_type)
     assert isinstance(expr, (acaciact.CTObj, acaciact.CTObjPtr))
-    return expr.cdata_type.name
+    return abs(expr).cdata_type.name
 
 class LiteralInt(UTyped):
     """Accepts an integer literal and converts it to Python `int`.
-- 
2.43.0


From a1a97c70844fb781dbd82ae7bdf208c389acbbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 32/61] fix: map.update always crashed the compiler

---
 acaciamc/objects/map_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index c582c09..859d377 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -235,7 +235,7 @@ class CTMap(CTConstMap):
             return res
         @cmethod_of(self, "update", runtime=False)
         @axe.chop
-        @axe.arg("other", axe.MapOf(axe.Constant(), axe.Constant()))
+        @axe.arg("other", axe.CTMapOf(axe.Constant(), axe.Constant()))
         def _update(compiler, other: Dict[CTObj, CTObj]):
             for k, v in other.items():
                 self.set(k, v)
-- 
2.43.0


From 31b38b7255fcd81e82cd9779bb2a6c6e33d3fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 33/61] fix: compile-time maps mixed up the keys True and 1,
 1.0 and 1

---
 acaciamc/objects/boolean.py | 3 ++-
 acaciamc/objects/float_.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index fdd5c97..f392222 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -152,7 +152,8 @@ class BoolLiteral(ConstExprCombined):
         return [cmds.RawtextText("1" if self.value else "0")], []
 
     def chash(self):
-        return self.value
+        # True and False must not be mistaken for 1 and 0
+        return (BoolLiteral, self.value)
 
     def compare(self, op: Operator, other: AcaciaExpr, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index ea82ef2..bc83f51 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -45,7 +45,8 @@ class Float(ConstExprCombined):
         return str(self)
 
     def chash(self):
-        return self.value
+        # 1.0 must not be mistaken for 1
+        return (Float, self.value)
 
     @classmethod
     def from_int(cls, integer: IntLiteral):
-- 
2.43.0


From a0ff5ea022d58be67c06f7e6af73a5f6025ee7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 34/61] fix: extending a list by itself never ended

---
 acaciamc/objects/list_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index bb0b0c7..eff0eb5 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -252,7 +252,8 @@ class CTList(CTConstList):
         @axe.arg("values", axe.CTIterator())
         @axe.slash
         def _extend(compiler, values: List["CTExpr"]):
-            self.ptrs.extend(map(self._new_element, values))
+            # `values` can be this very list
+            self.ptrs.extend([self._new_element(v) for v in values])
         @cmethod_of(self, "append", runtime=False)
         @axe.chop
         @axe.arg("value", axe.Constant())
-- 
2.43.0


From 2fae18a10f07b6c517182076fec31d230cb4cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 35/61] fix: list.repeat of a compile-time container crashed
 the compiler

---
 acaciamc/objects/list_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index eff0eb5..e13be3e 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -65,7 +65,7 @@ class ListType(Type):
             return AcaciaList(x)
         @cmethod_of(self, "repeat")
         @axe.chop
-        @axe.arg("object", axe.AnyValue(), rename="obj")
+        @axe.arg("object", axe.AnyRT(), rename="obj")
         @axe.arg("times", axe.LiteralInt())
         def _repeat(compiler, obj: AcaciaExpr, times: int):
             return AcaciaList(repeat(obj, times))
-- 
2.43.0


From a14913baa5fbb71495d7cea14902db8ccaf84b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 36/61] fix: a zero step in list.range and slice crashed the
 compiler

---
 acaciamc/lang/en_US.lang  | 4 ++++
 acaciamc/objects/list_.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 3b53452..da71e4a 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -442,6 +442,10 @@ objects.function.bvm.dispatcher = <dispatcher of virtual method %s>
 
 objects.function.unknown = <unknown>
 
+### objects/list_.py ###
+
+objects.list.zerostep = should not be 0
+
 ### generator.py ###
 
 ## visit_NewCall ##
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index e13be3e..244557b 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -16,6 +16,7 @@ from itertools import repeat
 from .types import Type
 from .integer import IntDataType, IntLiteral
 from acaciamc.tools import axe, cmethod_of
+from acaciamc.localization import localize
 from acaciamc.error import *
 from acaciamc.mccmdgen.expr import *
 from acaciamc.mccmdgen.datatype import DefaultDataType
@@ -25,6 +26,10 @@ from acaciamc.mccmdgen.utils import InvalidOpError
 if TYPE_CHECKING:
     from acaciamc.mccmdgen.ctexpr import CTExpr
 
+def _check_step(step: int):
+    if step == 0:
+        raise axe.ArgumentError("step", localize("objects.list.zerostep"))
+
 class ListDataType(DefaultDataType):
     name = "const_list"
 
@@ -56,6 +61,7 @@ class ListType(Type):
             @axe.arg("stop", axe.LiteralInt())
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start: int, stop: int, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "__new__")
         @axe.chop
@@ -128,6 +134,7 @@ class AcaciaList(ConstExpr):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
@@ -205,6 +212,7 @@ class CTConstList(CTObj):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
-- 
2.43.0


From 4e1643981b1719937aba74804c240c3e13b2e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 37/61] fix: comparing True or False with a value of another
 type crashed the compiler

---
 acaciamc/objects/boolean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index f392222..29c1356 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -163,6 +163,7 @@ class BoolLiteral(ConstExprCombined):
         true = self.value == (op is Operator.equal_to)
         if self.data_type.is_type_of(other):
             return other if true else other.unarynot(compiler)
+        raise InvalidOpError
 
     def ccompare(self, op: Operator, other: "CTObj"):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
-- 
2.43.0


From b535389080d6705f65cacbf750b9dd3a8c0db3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 38/61] fix: augmented assignment to a value that does not
 support it crashed the compiler

---
 acaciamc/mccmdgen/expr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/expr.py b/acaciamc/mccmdgen/expr.py
index 74fadbe..88d2d10 100644
--- a/acaciamc/mccmdgen/expr.py
+++ b/acaciamc/mccmdgen/expr.py
@@ -186,15 +186,15 @@ class AcaciaExpr:
     def unarynot(self, compiler: "Compiler") -> "AcaciaExpr":
         raise InvalidOpError
 
-    def iadd(self, compiler: "Compiler") -> CMDLIST_T:
+    def iadd(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def isub(self, compiler: "Compiler") -> CMDLIST_T:
+    def isub(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imul(self, compiler: "Compiler") -> CMDLIST_T:
+    def imul(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def idiv(self, compiler: "Compiler") -> CMDLIST_T:
+    def idiv(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
-    def imod(self, compiler: "Compiler") -> CMDLIST_T:
+    def imod(self, other: "AcaciaExpr", compiler: "Compiler") -> CMDLIST_T:
         raise InvalidOpError
 
 class ConstExpr(AcaciaExpr, metaclass=ABCMeta):
-- 
2.43.0


From 1638f6675987df4e901a6c64941fd127835c96f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 39/61] fix: inline implementations of a virtual method with
 several implementations get their self

---
 acaciamc/objects/functions.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 0677cdf..4d3a841 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -428,10 +428,13 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
     cdata_type = ctdt_function
 
     def __init__(self, object_: "_EntityBase", method_name: str,
-                 definition: METHODDEF_T):
+                 definition: METHODDEF_T,
+                 self_template: Optional["EntityTemplate"] = None):
+        # self_template: template of `self` in inline methods
         super().__init__(FunctionDataType())
         self.name = method_name
         self.object = object_
+        self.self_template = self_template or object_.template
         self.definition = definition
         self.is_inline = isinstance(definition, InlineFunction)
         self.func_repr = self.name
@@ -443,8 +446,9 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
                    "Unexpected target function %r" % self.definition
             # `EntityReference` is needed so that `self` is not
             # assignable.
-            self.definition.context.self_value = \
-                EntityReference.from_other(self.object)
+            self.definition.context.self_value = EntityReference(
+                self.object.get_selector(), self.self_template
+            )
         result, commands = self.definition.call(args, keywords, compiler)
         # `BinaryFunction`s cannot be method implementation
         # because we are not sure about their result data type
@@ -506,7 +510,9 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             _, templates, _ = self.impls[definition]
             templates.append(template)
         elif template.is_subtemplate_of(self.object.template):
-            bound_method = _BoundMethod(self.object, self.name, definition)
+            bound_method = _BoundMethod(
+                self.object, self.name, definition, template
+            )
             self.impls[definition] = (bound_method, [template], get_self_var)
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
@@ -555,7 +561,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 file.extend(_call_bm(args, keywords, only_bm))
                 continue
             # Fallback
-            for impl, (_, templates, get_self_var) in self.impls.items():
+            for bm, templates, get_self_var in self.impls.values():
                 file.write_debug(
                     "# For %s"
                     % (", ".join(template.name for template in templates))
@@ -565,7 +571,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     sel.scores(compiler.etemplate_id_scb,
                                f"!{template.runtime_id}")
                 sel_s = sel.to_str()
-                commands = _call_bm(args, keywords, impl)
+                commands = _call_bm(args, keywords, bm)
                 if not commands:
                     continue
                 f = cmds.MCFunctionFile()
-- 
2.43.0


From 5903b3955eadf36fca28c11c8c7754fc592c5abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 40/61] fix: calling a virtual method on another object must
 not clear self of a running implementation

---
 acaciamc/objects/functions.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 4d3a841..983c096 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -591,13 +591,19 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                     self_var = get_self_var()
                     # XXX direct access to TaggedEntity.tag
                     self_tag = self_var.tag
-                    file.extend(self_var.clear())
+                    # Only touch `self_var` if we are going to call this
+                    # implementation, since it might be running already
+                    # and be calling this method on another object.
+                    not_other = cmds.ExecuteCond("entity", sel_s, invert=True)
+                    for command in (*self_var.clear(),
+                                    "tag @s add %s" % self_tag):
+                        file.write(cmds.Execute([not_other], runs=command))
                     file.write(cmds.Execute(
-                        [cmds.ExecuteCond("entity", sel_s, invert=True)],
-                        runs="tag @s add %s" % self_tag
-                    ))
-                    file.write(cmds.Execute(
-                        [cmds.ExecuteCond("entity", "@s[tag=%s]" % self_tag)],
+                        [
+                            not_other,
+                            # Make sure @s is alive:
+                            cmds.ExecuteCond("entity", "@s[tag=%s]" % self_tag)
+                        ],
                         runs=cmds.InvokeFunction(f)
                     ))
 
-- 
2.43.0


From cb51502816e4c30886ef19cd5228552318b4b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 41/61] fix: Enfilter random after a filter that implies a type
 selected type=None

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a893ae4..ba31075 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -139,7 +139,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
                             % (type_, self.entity_type)
                     )
             if not selector.has_arg("type"):
-                selector.type(type_)
+                selector.type(self.entity_type)
             selector.limit(limit)
             # There should be a difference between these two:
             # (Supporse there are more than 5 entities with name "xxx")
-- 
2.43.0


From 78a38d9e6ed83693b4c5f8463e48f1dd264da187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 42/61] fix: integer ranges of Enfilter lost their negation and
 `1..2..3` crashed the compiler

---
 acaciamc/objects/entity_filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index ba31075..7e3cd11 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -47,10 +47,12 @@ class IntRange(axe.AnyOf):
             return str(origin_py)
         assert isinstance(origin_py, str)
         origin_py = origin_py.lstrip()
+        prefix = ""
         if origin_py.startswith("!"):
+            prefix = "!"
             origin_py = origin_py[1:]
         if ".." in origin_py:
-            min_, max_ = origin_py.split("..")
+            min_, max_ = origin_py.split("..", 1)
             min_ = min_.strip()
             max_ = max_.strip()
             if not min_ and not max_:
@@ -58,10 +60,10 @@ class IntRange(axe.AnyOf):
             if (min_ and not self.check_int(min_)
                 or max_ and not self.check_int(max_)):
                 self.wrong_argument()
-            return "%s..%s" % (min_, max_)
+            return "%s%s..%s" % (prefix, min_, max_)
         else:
             if self.check_int(origin_py):
-                return origin_py
+                return prefix + origin_py
             else:
                 self.wrong_argument()
 
-- 
2.43.0


From f5a93d8ff1f5f8119221202f27f9043122b5116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 43/61] fix: a second Enfilter is_game_mode replaced the first
 one

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 7e3cd11..5404941 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -321,7 +321,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
         @axe.arg("mode", axe.LiteralString())
         @transform_immutable(self)
         def _is_game_mode(self: EntityFilter, compiler, mode: str):
-            selector = self.last_selector(compiler)
+            selector = self.new_if_got(compiler, "m")
             selector.game_mode(mode)
             self.entity_type = PLAYER
             return self
-- 
2.43.0


From 7ea27e97c8fc299e7f2f06e99275a156a6fc4bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 44/61] fix: Enfilter operations after a limited selection were
 merged into that selection

---
 acaciamc/objects/entity_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 5404941..ae7655b 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -400,7 +400,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_selector_var(
         self, compiler, var: SELECTORVAR_T
     ) -> MCSelector:
-        if self.data[-1].selector.is_var_set():
+        if self.data[-1].selector.is_var_set() or self.next_use_new_data:
             self._new_data(compiler)
         res = self.data[-1].selector
         res.var = var
@@ -409,7 +409,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_context(
         self, compiler, *context: "_ExecuteSubcmd"
     ) -> MCSelector:
-        if self.context_occupied:
+        if self.context_occupied or self.next_use_new_data:
             self._new_data(compiler)
         self.data[-1].subcmds.extend(context)
         self.context_occupied = True
-- 
2.43.0


From 897acccf2a37a24902e980c3da6b660529e31aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 45/61] fix: keep the execution context of world.is_block and
 is_same_area to the condition

---
 acaciamc/modules/world.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 8de733f..be85ec2 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -955,6 +955,14 @@ def xp_add_points(compiler, player: "MCSelector", amount: int):
 
 ##### Judgement #####
 
+def _judge(compiler, subcmds):
+    """
+    Evaluate the condition at once. The execution context changed by
+    `subcmds` must not reach the commands that depend on the condition.
+    """
+    res = BoolVar.new(compiler, tmp=True)
+    return res, WildBool(subcmds, []).export(res, compiler)
+
 @_register("is_block")
 @axe.chop
 @axe.arg("pos", PosDataType)
@@ -964,7 +972,7 @@ def is_block(compiler, pos: Position, block: Block):
         *pos.context,
         cmds.ExecuteCond("block", "~ ~ ~ %s" % block.to_str(compiler))
     ]
-    return WildBool(subcmds, [])
+    return _judge(compiler, subcmds)
 
 @_register("is_same_area")
 @axe.chop
@@ -980,7 +988,7 @@ def is_same_area(compiler, pos: Position, offset: PosOffset,
             offset, other, "masked" if ignore_air else "all"
         ))
     ]
-    return WildBool(subcmds, [])
+    return _judge(compiler, subcmds)
 
 @_register("is_entity")
 @axe.chop
-- 
2.43.0


From cd8df44118a8e65b8dfb0f3526f861e5ff52880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 46/61] fix: versionlib.older accepted newer versions instead
 of older ones

---
 acaciamc/tools/versionlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tools/versionlib.py b/acaciamc/tools/versionlib.py
index 798ac4c..7517f58 100644
--- a/acaciamc/tools/versionlib.py
+++ b/acaciamc/tools/versionlib.py
@@ -67,7 +67,7 @@ class VersionLower(VersionRequirement):
         return "<%s" % format_version(self.version)
 
     def validate(self, version: VERSION_T) -> bool:
-        return self.version < version
+        return version < self.version
 
 def at_least(version: VERSION_T) -> VersionRequirement:
     """Requires >= the given version."""
-- 
2.43.0


From 85f6eecfe8302d1f8666851f6b1bc4ce27aca3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 47/61] fix: reject . and .. in interface paths, which reached
 other functions and folders outside the output

---
 acaciamc/error.py              | 1 +
 acaciamc/lang/en_US.lang       | 1 +
 acaciamc/mccmdgen/generator.py | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/acaciamc/error.py b/acaciamc/error.py
index 9afcff4..2596790 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -147,6 +147,7 @@ class ErrorType(LocalizedEnum):
     INTERFACE_PATH_SLASH_START = "error.errortype.interfacepathslashstart"
     INTERFACE_PATH_SLASH_END = "error.errortype.interfacepathslashend"
     INTERFACE_PATH_DOUBLE_SLASH = "error.errortype.interfacepathdoubleslash"
+    INTERFACE_PATH_DOTS = "error.errortype.interfacepathdots"
     INTERFACE_PATH_INVALID_CHAR = "error.errortype.interfacepathinvalidchar"
     # Compiler
     IO = "error.errortype.io"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index da71e4a..0226428 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -221,6 +221,7 @@ error.errortype.interfacepathslashstart = An interface path cannot start with a
 error.errortype.interfacepathslashend = An interface path cannot end with a slash
 error.errortype.interfacepathdoubleslash = Double slashes found in interface path
 error.errortype.interfacepathempty = Empty interface path
+error.errortype.interfacepathdots = {name!r} cannot be a part of interface path
 error.errortype.interfacepathinvalidchar = Invalid character {char!r} in interface path
 error.errortype.io = I/O Error: {message}
 error.errortype.modulenotfound = Module not found: "{module}"
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index ddd775d..6b2e63d 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -490,6 +490,9 @@ class Generator(ASTVisitor):
             self.error_c(ErrorType.INTERFACE_PATH_SLASH_END)
         if '//' in path:
             self.error_c(ErrorType.INTERFACE_PATH_DOUBLE_SLASH)
+        for name in path.split('/'):
+            if name in ('.', '..'):
+                self.error_c(ErrorType.INTERFACE_PATH_DOTS, name=name)
         for c in path:
             if c not in FUNCTION_PATH_CHARS:
                 self.error_c(ErrorType.INTERFACE_PATH_INVALID_CHAR, char=c)
-- 
2.43.0


From b11b5b62a69da941122d340e8847280d5b167026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 48/61] fix: temporary scores and formatted texts in virtual
 inline methods generated at finish crashed the compiler

---
 acaciamc/compiler.py      | 5 +++++
 acaciamc/modules/print.py | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ab6c4e3..a6fd6bb 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -257,7 +257,12 @@ class Compiler:
         because the var returned might have been used by others
         NOTE Temporary vars are only available within 1 statement
         when it comes to next statement, current vars are deleted.
+        NOTE Code generated by a `before_finish` callback belongs to no
+        statement and may run in the middle of any of them, so it can't
+        reuse their temporary vars.
         """
+        if self.current_generator is None:
+            return self.allocate()
         if self._free_tmp_score:
             # if there are free vars in list, reuse them
             res = self._free_tmp_score.pop()
diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 675afa1..d6e3638 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -211,7 +211,7 @@ def _format(compiler, pattern: str, args, kwds):
             _FStrParser(pattern, args, kwds, compiler).parse()
     except _FStrError as err:
         raise Error(ErrorType.ANY, message=str(err))
-    if dependencies:
+    if dependencies and compiler.current_generator is not None:
         # The fstring may be used by statements other than this one, so
         # the scores its commands write can't be freed with this one.
         compiler.current_generator.current_tmp_scores.clear()
-- 
2.43.0


From 862d5ea8d3f2a014b886404ed59b11116a853ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 49/61] fix: calls to a virtual method from a virtual inline
 method were dropped

---
 acaciamc/objects/functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 983c096..db04fb2 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -500,7 +500,6 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             List[Tuple[ARGS_T, KEYWORDS_T, cmds.MCFunctionFile]] = []
         self.result_var = result_var
         self.func_repr = self.name
-        compiler.before_finish(self._generate)
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
@@ -517,6 +516,10 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
         file = cmds.MCFunctionFile()
+        if not self.files:
+            # The dispatcher of another method may call this one, so
+            # `_generate` may have been run already.
+            compiler.before_finish(self._generate)
         self.files.append((args, keywords, file))
         compiler.add_file(file)
         # Make a copy of `result_var` since it is shared by all calls
@@ -546,7 +549,9 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
             only_selfvar = None if _getself is None else _getself()
         else:
             only_bm = only_selfvar = None
-        for args, keywords, file in self.files:
+        files = self.files
+        self.files = []
+        for args, keywords, file in files:
             file.write_debug(
                 "## Virtual method dispatcher for %s.%s()"
                 % (self.object.template.name, self.name)
-- 
2.43.0


From 155ed775338d3149028a9fc55f2f6af9831cb0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 50/61] fix: commands of an inlined function may change the
 entity whose score the condition reads

---
 acaciamc/mccmdgen/cmds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index bee8134..82917bd 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -104,8 +104,10 @@ class Cmd(Command):
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
         # We do not parse raw commands: assume that those that can
-        # reach the scoreboard do modify the slot.
-        return any(x in self.value for x in ("scoreboard", "function"))
+        # reach the scoreboard do modify the slot, and that any command
+        # can change which entities a selector matches (such as /tag).
+        return (slot.target.startswith("@")
+            or any(x in self.value for x in ("scoreboard", "function")))
 
 class ScbSetConst(Command):
     def __init__(self, target: ScbSlot, value: int):
-- 
2.43.0


From 54c33f77fef4743a14285bab249762be4a7bae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 51/61] fix: comparing two booleans was rejected when the right
 one is a negated compound condition

---
 acaciamc/objects/boolean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 29c1356..924bfcc 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -64,7 +64,7 @@ def _bool_compare(self: AcaciaExpr, op: Operator, other: AcaciaExpr, compiler):
     elif isinstance(other, NotBoolVar):
         slot2 = other.slot
         invert = not invert
-    elif isinstance(other, (CompareBase, WildBool)):
+    elif isinstance(other, (CompareBase, WildBool, NotWildBool)):
         _dep, other_var = to_BoolVar(other, compiler)
         dep.extend(_dep)
         slot2 = other_var.slot
-- 
2.43.0


From 3b27b8427c64b5e748159477e4e82755c130660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 52/61] fix: a reference of a wrong type in a const function
 crashed the compiler

---
 acaciamc/mccmdgen/ctexecuter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index d582565..f4d9e8c 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -297,7 +297,7 @@ class CTExecuter(ASTVisitor):
             dt: CTDataType = self.visit(node.type)
             if not dt.is_typeof(value):
                 self.error_node(node.type, ErrorType.WRONG_REF_TYPE,
-                                anno=dt.name, got=value.cdata_type.name)
+                                anno=dt.name, got=abs(value).cdata_type.name)
         self.register_symbol(node.name, value)
 
     def visit_ExprStatement(self, node: ExprStatement):
-- 
2.43.0


From c3082a5173f5f61fee2896261fa36e9602a1728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 53/61] fix: a const function given a variable of a wrong type
 crashed the compiler

---
 acaciamc/mccmdgen/generator.py | 2 +-
 acaciamc/objects/functions.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 6b2e63d..54e2fed 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -684,7 +684,7 @@ class Generator(ASTVisitor):
                 self.error_c(
                     ErrorType.UNMATCHED_ARG_DEFAULT_TYPE,
                     arg=arg, arg_type=arg_types[arg].name,
-                    default_type=defaults[arg].cdata_type.name
+                    default_type=abs(defaults[arg]).cdata_type.name
                 )
         if node.returns is None or node.returns.type is None:
             returns = ctdt_none
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index db04fb2..7445c98 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -328,7 +328,7 @@ class CTArgHandler(ArgumentHandler[
         if not dt.is_typeof(v):
             # Try implicit type conversion
             try:
-                new_value = value.cimplicitcast(dt)
+                new_value = v.cimplicitcast(dt)
             except InvalidOpError:
                 raise Error(ErrorType.WRONG_ARG_TYPE, arg=arg,
                             expect=dt.name, got=v.cdata_type.name)
-- 
2.43.0


From 19858c738a59cc97cb216308fbc40d6802067f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 54/61] fix: None could not be formatted in a const function

---
 acaciamc/objects/none.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/none.py b/acaciamc/objects/none.py
index c2378a5..628df9a 100644
--- a/acaciamc/objects/none.py
+++ b/acaciamc/objects/none.py
@@ -42,5 +42,5 @@ class NoneLiteral(ConstExprCombined, VarValue):
     def cdatatype_hook(self) -> CTDataType:
         return ctdt_none
 
-    def stringify(self) -> str:
+    def cstringify(self) -> str:
         return 'None'
-- 
2.43.0


From 8fa8fd8fc8db565cf19843e1855a39aef5bee423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 55/61] fix: a const variable holding None was not accepted by
 nullable arguments of const functions

---
 acaciamc/tools/axe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index d74c6e0..f96a291 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -486,8 +486,8 @@ class Nullable(ConverterContainer):
             return None
         return self.converter.convert(origin)
 
-    def cconvert(self, origin: acaciact.CTObj):
-        if isinstance(origin, objects.NoneLiteral):
+    def cconvert(self, origin: acaciact.CTExpr):
+        if isinstance(abs(origin), objects.NoneLiteral):
             return None
         return self.converter.cconvert(origin)
 
-- 
2.43.0


From 447acbfc3715b11fa37657e08ade0a271b0d3f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 56/61] fix: the result of an inline function given inside a
 for loop was lost

---
 acaciamc/mccmdgen/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 54e2fed..434a1fa 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -902,6 +902,8 @@ class Generator(ASTVisitor):
                     self.register_symbol(node.name, value)
                     for stmt in node.body:
                         self.visit(stmt)
+                    result = self.ctx.inline_result
+                self.ctx.inline_result = result
         else:
             assert isinstance(iterable, EntityGroup)
             with self.new_mcfunc_file() as body_file, \
@@ -914,6 +916,8 @@ class Generator(ASTVisitor):
                 self.register_symbol(node.name, this)
                 for stmt in node.body:
                     self.visit(stmt)
+                result = self.ctx.inline_result
+            self.ctx.inline_result = result
             self.write_debug("Entity group iteration at %s"
                              % body_file.get_path())
             self.current_file.write(cmds.Execute(
-- 
2.43.0


From e933bf57c2c112a0682847c477e055c179e1067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 57/61] fix: the result of a const function changed when its
 variable was assigned later

---
 acaciamc/mccmdgen/ctexecuter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index f4d9e8c..5f6b5fe 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -345,7 +345,7 @@ class CTExecuter(ASTVisitor):
 
     def visit_Result(self, node: Result):
         # Toplevel result
-        self.result = self.visit(node.value)
+        self.result = abs(self.visit(node.value))
 
     # TODO compile time struct?
 
-- 
2.43.0


From 9c6fdcaab55f101ff4eb6ca532cb32cb516d8068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 58/61] fix: a const function called from another one modified
 the variables of its caller

---
 acaciamc/mccmdgen/generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 434a1fa..97455e8 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1265,9 +1265,9 @@ class Generator(ASTVisitor):
         with self.set_ctx(func.context):
             ctexec = CTExecuter(self.ctx.scope, self, self.file_name)
             for arg, value in arg2value.items():
-                if isinstance(value, CTObj):
-                    value = CTObjPtr(value)
-                ctexec.current_scope.set(arg, value)
+                # Assign to a new pointer: the function must not modify
+                # the variable of its caller.
+                ctexec.current_scope.set(arg, CTObjPtr(abs(value)))
             for stmt in func.node.body:
                 ctexec.visittop(stmt)
             result = ctexec.result
-- 
2.43.0


From ff3ea948983f9925e0aac6909fc7fa7b71030602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 59/61] fix: a struct field named like an internal argument
 crashed the compiler

---
 acaciamc/objects/struct_template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 2cfb87c..78b8a0f 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -59,13 +59,15 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
         @axe.chop
         @axe.star
         @apply_decorators([
-            axe.arg(name, type_, default=None)
+            # Rename since a field may have the name of a Python argument
+            axe.arg(name, type_, rename="field_" + name, default=None)
             for name, type_ in self.field_types.items()
         ])
         def _call_me(compiler, **fields: Optional[AcaciaExpr]):
             commands = []
             tmps = {}
-            for name, value in fields.items():
+            for name in self.field_types:
+                value = fields["field_" + name]
                 if value is None:
                     continue
                 target = instance.vars[name]
-- 
2.43.0


From 5c1f658207a2cc57d05dd61392ea7dbbca2b21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:37 +0000
Subject: [PATCH 60/61] fix: construct a derived struct into a variable of the
 base type

---
 acaciamc/objects/struct_template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 78b8a0f..736db10 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -68,7 +68,9 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
             tmps = {}
             for name in self.field_types:
                 value = fields["field_" + name]
-                if value is None:
+                # `instance` may be of a base template, in which case it
+                # does not have the fields added by this template.
+                if value is None or name not in instance.vars:
                     continue
                 target = instance.vars[name]
                 if use_tmp:
-- 
2.43.0


From 57c938730d11d0264cf64423aab7a25e96e1e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 61/61] fix: reject entity tags that cannot be written unquoted
 in commands

---
 acaciamc/cli.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index c1fbfc0..c16327b 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -9,6 +9,7 @@ import sys
 
 from acaciamc.error import Error as CompileError
 from acaciamc.compiler import Compiler, Config
+from acaciamc.constants import TERMINATOR_CHARS
 from acaciamc.localization import localize
 from acaciamc.tokenizer import is_idstart, is_idcontinue
 
@@ -135,6 +136,13 @@ def get_config(args) -> Config:
         assert_id(args.main_file, '--main-file')
         kwds["main_file"] = args.main_file
     if args.entity_tag:
+        # The tag is written unquoted in commands and selectors.
+        for c in args.entity_tag:
+            if c in TERMINATOR_CHARS:
+                fatal(localize("cli.assertid.fatal").format(
+                    option='--entity-tag',
+                    msg=localize("cli.checkid.idcontinue") % c
+                ))
         kwds["entity_tag"] = args.entity_tag
     if args.mc_version:
         numlist = args.mc_version.split(".")
-- 
2.43.0

