From 4a1bb3468aa0601af2abef2e9598959bc27159bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 01/95] fix: record trials that end by sys.exit() without
 integer code or by non-Exception exceptions

---
 .../noworkflow/now/collection/prov_execution/execution.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index e6172fd..70930fa 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -64,11 +64,14 @@ class Execution(object):
             exec(compiled, metascript.namespace)  # pylint: disable=exec-used
             sys.meta_path.remove(metascript.definition.finder)
         except SystemExit as ex:
-            self.force_msg = self.partial = ex.code > 0
+            # sys.exit() succeeds with None or 0. Any other code is a failure
+            self.force_msg = self.partial = ex.code not in (None, 0)
             self.msg = ("the execution exited via sys.exit(). Exit status: {}"
                         "".format(ex.code))
 
-        except Exception as exc:  # pylint: disable=broad-except
+        except BaseException as exc:  # pylint: disable=broad-except
+            # It includes exceptions such as KeyboardInterrupt: the trial has
+            # ended and what was collected must be stored.
             # ToDo #77: exceptions should be registered as return from the
             # activation and stored in the database. We are currently ignoring
             # all the activation tree when exceptions are raised.
-- 
2.43.0


From 94eadb70be6b82d4883a91737b3c834a011c8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 02/95] fix: keep bare except handlers catching every exception

---
 .../now/collection/prov_definition/transformer_stmt.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 9688db8..ded0726 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -1216,7 +1216,8 @@ class RewriteAST(ast.NodeTransformer):
         """
         new_node = copy(node)
         if new_node.type is None:
-            new_node.type = ast.Name('Exception', L())
+            # bare except also handles SystemExit, KeyboardInterrupt, ...
+            new_node.type = ast.Name('BaseException', L())
         name = '__now_exception__'
         if new_node.name is None:
             new_node.name = name if PY3 else ast.Name(name, S())
-- 
2.43.0


From ad402f6261872841d4b2609d6d84551ab42fa8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 03/95] fix: allow decorators that return objects without
 attributes (property)

---
 .../noworkflow/now/collection/prov_execution/collector.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d5553bb..3355c03 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1409,7 +1409,10 @@ class Collector(object):
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
                 activation.context[function_name] = dependency.evaluation
-            function_def.original_def = original_def
+            try:
+                function_def.original_def = original_def
+            except (AttributeError, TypeError):
+                pass  # property and other objects without attributes
             return function_def
         return dec
 
-- 
2.43.0


From d7e1de54a94b320669fa31e37ef09c543a08a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 04/95] fix: do not recurse forever on functions renamed by
 functools.wraps

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 3355c03..b5c8d0f 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1305,7 +1305,8 @@ class Collector(object):
                 Pass __now_activation__ as parameter
                 """
                 activation = self.last_activation
-                if activation.active and activation.name != function_def.__name__: # White box after black box call
+                names = (function_def.__name__, new_function_def.__name__)
+                if activation.active and activation.name not in names: # White box after black box call
                     is_augassign = function_def.__name__ in {
                         '__iadd__', '__isub__', '__imul__', '__imatmul__', '__itruediv__', 
                         '__ifloordiv__', '__imod__', '__ipow__', '__ilshift__', '__irshift__', 
-- 
2.43.0


From c20ac9c283d59b5139393869cb5b9e01e321fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 05/95] fix: access attributes of objects without __dict__

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index b5c8d0f..7d70362 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -219,7 +219,7 @@ class Collector(object):
                 if hasattr(accessor, '__get__'):
                     # ToDo: accessor provenance
                     return False
-            if vindex in vcontainer.__dict__:
+            if vindex in getattr(vcontainer, '__dict__', ()):
                 # In instance
                 if isinstance(vcontainer, type):
                     accessor = vcontainer.__dict__[vindex]
-- 
2.43.0


From 322458ea8bc8cc095b574bc04323e9d19e956a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 06/95] fix: do not call user-defined comparisons while
 capturing; accept open(file=...)

---
 .../now/collection/prov_execution/collector.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 7d70362..610a737 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -140,7 +140,17 @@ class Collector(object):
 
     def new_open(self, old_open, osopen=False):
         """Wrap the open builtin function to register file access"""
-        def open(name, *args, **kwargs):  # pylint: disable=redefined-builtin
+        def open(*args, **kwargs):  # pylint: disable=redefined-builtin
+            """Open file and add it to file_accesses"""
+            if not args:
+                # File name informed by keyword
+                for key in ("file", "path", "filename"):
+                    if key in kwargs:
+                        return open(kwargs.pop(key), **kwargs)
+                return old_open(**kwargs)
+            return open_file(*args, **kwargs)
+
+        def open_file(name, *args, **kwargs):
             """Open file and add it to file_accesses"""
             if content.should_use_safe_open():
                 return old_open(name, *args, **kwargs)
@@ -1733,7 +1743,7 @@ class Collector(object):
                 bind = False
                 if len(depa.dependencies) == 1:
                     gen_dep = depa.dependencies[0]
-                    bind = gen_dep.value == element
+                    bind = gen_dep.value is element
                 clone_depa, found = self.sub_dependency(
                     dep, value, index, clone_depa
                 )
@@ -1805,7 +1815,7 @@ class Collector(object):
     def ifexp(self, activation, code_id, exc_handler, if_lambda, mode):
         """Collect ifexp"""
         # pylint: disable=too-many-arguments
-        value = "<<<noWorkflow>>>"
+        value = unset = object()
         try:
             activation.dependencies.append(DependencyAware(
                 exc_handler=exc_handler,
@@ -1818,7 +1828,7 @@ class Collector(object):
             raise
         finally:
             depa = activation.dependencies.pop()
-            if activation.active and value != "<<<noWorkflow>>>":
+            if activation.active and value is not unset:
                 self.eval_dep(activation, code_id, value, mode, depa)
             self.remove_condition(activation)
 
-- 
2.43.0


From 55a4c6a3c64ec01eb11d2972f38a2c8467bb9f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 07/95] fix: capture values whose __repr__ fails

---
 .../noworkflow/now/collection/prov_execution/collector.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 610a737..446af5d 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -132,7 +132,11 @@ class Collector(object):
                 repr_fn = original_def
             except AttributeError:
                 pass
-        return repr_fn(value)
+        try:
+            return repr_fn(value)
+        except Exception:  # pylint: disable=broad-except
+            # __repr__ may fail. e.g., when the object is not initialized
+            return object.__repr__(value)
 
     def as_is(self, value):
         """Return value without any processing"""
-- 
2.43.0


From 6089dbd4eb249ca974a23ee337854f8bd6a809bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 08/95] fix: keep docstrings of modules and functions

---
 .../now/collection/prov_definition/ast_helpers.py      | 10 ++++++++++
 .../now/collection/prov_definition/transformer_stmt.py |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_helpers.py b/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
index a63b827..16073b2 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
@@ -8,6 +8,7 @@ import ast
 
 from .ast_elements import L
 from contextlib import contextmanager
+from copy import copy
 
 
 def ast_copy(new_node, old_node):
@@ -196,3 +197,12 @@ def select_future_imports(body):
         if isinstance(stmt, ast.ImportFrom) and stmt.module == "__future__":
             index = i
     return body[:index + 1]
+
+
+def select_docstring(body):
+    """Select docstring statement"""
+    if body and isinstance(body[0], ast.Expr):
+        value = getattr(body[0].value, "value", getattr(body[0].value, "s", None))
+        if isinstance(value, type(u"")):
+            return [copy(body[0])]
+    return []
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index ded0726..e52ff57 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -13,7 +13,7 @@ from contextlib import contextmanager
 import pyposast
 
 from .ast_helpers import ReplaceContextWithLoad, ast_copy, temporary
-from .ast_helpers import select_future_imports
+from .ast_helpers import select_docstring, select_future_imports
 
 from .ast_elements import maybe, context, raise_, now_attribute
 from .ast_elements import L, S, none, call, param, true_false, true, false
@@ -192,7 +192,7 @@ class RewriteAST(ast.NodeTransformer):
             iscell = none()
             if self.cell is not None:
                 iscell = name = ast.Str(self.cell)
-            body = future_imports + [
+            body = (future_imports or select_docstring(node.body)) + [
                 ast_copy(ast.Assign(
                     [ast.Name('__now_result__', S())],
                     none()
@@ -437,7 +437,7 @@ class RewriteAST(ast.NodeTransformer):
                 ]
             ), new_node))
 
-            body = [
+            body = select_docstring(new_node.body) + [
                 ast_copy(ast.Expr(noworkflow('match_arguments', [
                     activation(),
                     ast.Name('__now_function_def__', L()),
-- 
2.43.0


From a9742e427cb48747f21992f542cb3471651e5af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 09/95] fix: do not fail matching arguments of calls made by
 black box functions

---
 .../noworkflow/now/collection/prov_execution/collector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 446af5d..40b52ca 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1604,6 +1604,9 @@ class Collector(object):
 
         # Match args
         for arg in arguments:
+            if last_unfilled >= len(parameter_order):
+                # Black box call invoked this function with other arguments
+                break
             if arg is None:
                 param = parameter_order[last_unfilled]
                 param.filled = True
@@ -1611,6 +1614,8 @@ class Collector(object):
             elif arg.arg == "*":
                 new_args.extend(arg.value)
                 for _ in range(len(arg.value)):
+                    if last_unfilled >= len(parameter_order):
+                        break
                     param = parameter_order[last_unfilled]
                     match(arg, param)
                     if param.is_vararg:
@@ -1624,9 +1629,6 @@ class Collector(object):
                 if not param.is_vararg:
                     param.filled = True
                     last_unfilled += 1
-                if (((function_def.__name__ == "__enter__") or (function_def.__name__ == "__exit__")) 
-                    and (last_unfilled >= len(parameter_order))):
-                    break
        
 
         if vararg:
-- 
2.43.0


From acf0dbfbea0e01479475ebc51fd708b18cc11425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 10/95] fix: support positional-only parameters

---
 .../prov_definition/transformer_expr.py       |  9 +------
 .../prov_definition/transformer_stmt.py       | 25 ++++++++++++-------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 0a6cc99..3affeaf 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -262,14 +262,7 @@ class RewriteDependencies(ast.NodeTransformer):
             ), new_node),
             [new_node]
         ), new_node)
-        new_node.args.args = [
-            param('__now_activation__'),
-            param('__now_function_def__'),
-            param('__now_args__'),
-            param('__now_kwargs__'),
-            param('__now_default_values__'),
-            param('__now_default_dependencies__'),
-        ] + new_node.args.args
+        rewriter.add_now_parameters(new_node.args)
         new_node.args.defaults = [none() for _ in new_node.args.defaults]
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index e52ff57..f6421fb 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -340,7 +340,8 @@ class RewriteAST(ast.NodeTransformer):
         self.create_composition(arguments_id, *self.composition_edge)
 
         arg_list = []
-        for index, arg in enumerate(arguments.args):
+        all_args = getattr(arguments, 'posonlyargs', []) + arguments.args
+        for index, arg in enumerate(all_args):
             self.composition_edge = (arguments_id, Component.M_ARGS, index)
             arg_list.append(self.process_arg(arg, arguments))
         args = ast.List(arg_list, L())
@@ -377,6 +378,19 @@ class RewriteAST(ast.NodeTransformer):
             defaults, kw_defaults
         ], L())
 
+    def add_now_parameters(self, arguments):
+        """Add noWorkflow parameters before the other parameters"""
+        # pylint: disable=no-self-use
+        attr = 'posonlyargs' if getattr(arguments, 'posonlyargs', []) else 'args'
+        setattr(arguments, attr, [
+            param('__now_activation__'),
+            param('__now_function_def__'),
+            param('__now_args__'),
+            param('__now_kwargs__'),
+            param('__now_default_values__'),
+            param('__now_default_dependencies__'),
+        ] + getattr(arguments, attr))
+
     def visit_FunctionDef(self, node, cls=ast.FunctionDef, typ=Component.FUNCTION_DEF):
         """Visit Function Definition
         Transform:
@@ -449,14 +463,7 @@ class RewriteAST(ast.NodeTransformer):
                 ])), new_node)
             ] + self.process_body(new_node.body, func_id)
 
-            new_node.args.args = [
-                param('__now_activation__'),
-                param('__now_function_def__'),
-                param('__now_args__'),
-                param('__now_kwargs__'),
-                param('__now_default_values__'),
-                param('__now_default_dependencies__'),
-            ] + new_node.args.args
+            self.add_now_parameters(new_node.args)
             new_node.args.defaults = [
                 ast_copy(none(), arg) for arg in new_node.args.defaults
             ]
-- 
2.43.0


From 709c8bafe6dadd5151ea36b8a5700c0685e53816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 11/95] fix: support unpacking of arbitrary expressions in
 dict, list and set displays

---
 .../now/collection/prov_definition/transformer_expr.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 3affeaf..45c509a 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -356,7 +356,11 @@ class RewriteDependencies(ast.NodeTransformer):
         new_keys, new_values = [], []
         for index, (key, value) in enumerate(zip(node.keys, node.values)):
             self.composition_edge = (dict_code_component, Component.S_KEY_VALUE, index)
-            new_key, new_value = self._dict_itemize(key, value)
+            if key is None:  # {**value}
+                new_key = None
+                new_value = self.rewriter.capture(value, mode=Dependency.VALUE)
+            else:
+                new_key, new_value = self._dict_itemize(key, value)
             new_keys.append(new_key)
             new_values.append(new_value)
 
@@ -1159,6 +1163,9 @@ class RewriteDependencies(ast.NodeTransformer):
 
         new_node = copy(node)
         new_node.value = self.visit(node.value)
+        if not hasattr(new_node.value, 'target_expr'):
+            # Not a target. e.g., [*f()]
+            return new_node
         new_node.target_expr = ast.Tuple([
             new_node.value.target_expr,
             ast.Str('starred')
-- 
2.43.0


From 01a40bdd75698171ff3041ee4eec43acfabafc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 12/95] fix: do not leak a dependency level for each lambda

---
 .../now/collection/prov_execution/collector.py         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 40b52ca..a334b16 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1404,10 +1404,12 @@ class Collector(object):
                 return result
             if default_values[0]:
                 function_def.__defaults__ = default_values[0]
-            closure_activation.dependencies.append(DependencyAware(
-                exc_handler=defaults.exc_handler,
-                code_id=block_id,
-            ))
+            if mode == "decorate":
+                # It is popped by collect_function_def. Lambdas do not have it
+                closure_activation.dependencies.append(DependencyAware(
+                    exc_handler=defaults.exc_handler,
+                    code_id=block_id,
+                ))
             if closure_activation.active:
                 self.eval_dep(
                     closure_activation, block_id, new_function_def, mode
-- 
2.43.0


From d8a756702c7efb1f45545dd8abd665870a2e0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 13/95] fix: if, while and conditional expressions whose test
 raises; if inside exception handlers

---
 .../prov_definition/transformer_stmt.py       | 117 +++++++-----------
 .../collection/prov_execution/collector.py    |  39 +++++-
 .../collection/prov_execution/structures.py   |  15 ---
 3 files changed, 77 insertions(+), 94 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index f6421fb..e157e54 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -15,7 +15,7 @@ import pyposast
 from .ast_helpers import ReplaceContextWithLoad, ast_copy, temporary
 from .ast_helpers import select_docstring, select_future_imports
 
-from .ast_elements import maybe, context, raise_, now_attribute
+from .ast_elements import maybe, context
 from .ast_elements import L, S, none, call, param, true_false, true, false
 from .ast_elements import noworkflow, double_noworkflow
 from .ast_elements import activation, function_def, class_def, try_def
@@ -881,9 +881,8 @@ class RewriteAST(ast.NodeTransformer):
                 ...
         Into:
             try:
-                <now>.prepare_while(<act>)
-                while <now>.remove_condition(
-                    <act>)(<now>.condition(<act>, <exc>)(<act>, |x|)):
+                <now>.prepare_condition(<act>, <exc>)
+                while <now>.while_condition(<act>, <exc>)(<act>, |x|):
                     ...
                 else:
                     ...
@@ -901,16 +900,14 @@ class RewriteAST(ast.NodeTransformer):
             new_node = copy(node)
             self.composition_edge = (while_id, Component.S_TEST)
             new_node.test = ast_copy(double_noworkflow(
-                'remove_condition', [activation()], [double_noworkflow(
-                    'condition',
-                    [
-                        activation(),
-                        ast.Num(self.current_exc_handler)
-                    ], [
-                        activation(),
-                        self.capture(new_node.test, mode=Dependency.CONDITION)
-                    ]
-                )]
+                'while_condition',
+                [
+                    activation(),
+                    ast.Num(self.current_exc_handler)
+                ], [
+                    activation(),
+                    self.capture(new_node.test, mode=Dependency.CONDITION)
+                ]
             ), new_node)
             new_node.body = self.process_body(new_node.body, while_id)
             new_node.orelse = self.process_body(
@@ -919,7 +916,7 @@ class RewriteAST(ast.NodeTransformer):
 
             return ast_copy(try_def([
                 ast_copy(ast.Expr(noworkflow(
-                    'prepare_while',
+                    'prepare_condition',
                     [activation(), ast.Num(self.current_exc_handler)]
                 )), new_node),
                 new_node
@@ -946,80 +943,54 @@ class RewriteAST(ast.NodeTransformer):
                 ...2
             else:
                 ...3
-        Into: # Replaces If to avoid creating unnecessary nested blocks
+        Into:
             try:
-                raise (
-                    <now>.condition_exceptions[0]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[1]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[2]()
-                )
-            except <now>.condition_exceptions[0]:
-                ...1
-            except <now>.condition_exceptions[1]:
-                ...2
-            except <now>.condition_exceptions[2]:
-                ...3
+                <now>.prepare_condition(<act>, <exc>)
+                if <now>.if_condition(<act>, <exc>)(<act>, |x|):
+                    ...1
+                elif <now>.if_condition(<act>, <exc>)(<act>, |y|):
+                    ...2
+                else:
+                    ...3
             finally:
                 <now>.remove_condition(__now_activation__)
         """
         # pylint: disable=invalid-name
-        handlers = []
-        def access_if(ifnod, exc_id):
-            """Create ifexp considering elif"""
+        def process_if(ifnod):
+            """Process if considering elif"""
             if_id = self.create_ast_component(ifnod, Component.IF)
             self.create_composition(if_id, *self.composition_edge)
-            subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id)), L()
-            )
-            else_subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id + 1)), L()
-            )
-            handlers.append(ast_copy(ast.ExceptHandler(
-                subscript, None,
-                self.process_body(ifnod.body, if_id)
-            ), ifnod))
-            if_result = call(subscript, [])
-
-            else_block = None
-            if not ifnod.orelse:
-                else_block = [ast.Pass()]
-            elif len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
+            new_node = copy(ifnod)
+            new_node.body = self.process_body(ifnod.body, if_id)
+
+            if len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
                 self.composition_edge = (if_id, Component.M_ORELSE, 0)
-                else_result = access_if(ifnod.orelse[0], exc_id + 1)
+                new_node.orelse = [process_if(ifnod.orelse[0])]
             else:
-                else_block = self.process_body(
+                new_node.orelse = self.process_body(
                     ifnod.orelse, if_id, attr=Component.M_ORELSE
                 )
 
-            if else_block is not None:
-                handlers.append(ast_copy(ast.ExceptHandler(
-                    else_subscript, None, else_block
-                ), ifnod))
-                else_result = call(else_subscript, [])
-
             self.composition_edge = (if_id, Component.S_TEST)
-            return ast_copy(ast.IfExp(
-                double_noworkflow(
-                    'condition',
-                    [
-                        activation(),
-                        ast.Num(self.current_exc_handler)
-                    ], [
-                        activation(),
-                        self.capture(ifnod.test, mode=Dependency.CONDITION)
-                    ]
-                ),
-                if_result,
-                else_result
+            new_node.test = ast_copy(double_noworkflow(
+                'if_condition',
+                [
+                    activation(),
+                    ast.Num(self.current_exc_handler)
+                ], [
+                    activation(),
+                    self.capture(ifnod.test, mode=Dependency.CONDITION)
+                ]
             ), ifnod)
+            return new_node
 
         return ast_copy(try_def([
-            ast_copy(raise_(access_if(node, 0)), node)
-        ], handlers, [], [
+            ast_copy(ast.Expr(noworkflow(
+                'prepare_condition',
+                [activation(), ast.Num(self.current_exc_handler)]
+            )), node),
+            process_if(node)
+        ], [], [], [
             ast_copy(ast.Expr(noworkflow(
                 'remove_condition', [activation()]
             )), node)
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index a334b16..4e0a58d 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -27,7 +27,7 @@ from ...utils.cross_version import cross_print, PY38
 from .structures import AssignAccess, Assign, Generator, FutureActivation
 from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
-from .structures import ConditionExceptions, WithContext
+from .structures import WithContext
 
 NOW_UNSET = "<now_unset>"
 
@@ -109,8 +109,6 @@ class Collector(object):
         self.Ellipsis = Ellipsis  # pylint: disable=invalid-name
         self.old_next = next
 
-        self.condition_exceptions = ConditionExceptions()
-
         # attribute<->self dependency
         self.current_attr = None
         # item<->key dependency
@@ -1783,6 +1781,33 @@ class Collector(object):
 
         return value
 
+    def if_condition(self, activation, exc_handler):
+        """Capture if/elif condition before"""
+        self.condition(activation, exc_handler)
+        return self._if_condition
+
+    def _if_condition(self, activation, value):
+        """Capture if/elif condition after.
+        Add its dependencies to the condition prepared for the if"""
+        self._condition(activation, value)
+        condition = activation.conditions.pop()
+        prepared = activation.conditions[-1]
+        prepared.dependencies.extend(condition.dependencies)
+        prepared.extra_dependencies.extend(condition.extra_dependencies)
+        return value
+
+    def while_condition(self, activation, exc_handler):
+        """Capture while condition before"""
+        self.condition(activation, exc_handler)
+        return self._while_condition
+
+    def _while_condition(self, activation, value):
+        """Capture while condition after.
+        Replace the condition of the previous iteration"""
+        self._condition(activation, value)
+        activation.conditions[-2:] = activation.conditions[-1:]
+        return value
+
     def rcondition(self, activation, exc_handler):
         """Capture rcondition before. Remove conditions if false"""
         self.condition(activation, exc_handler)
@@ -1813,8 +1838,8 @@ class Collector(object):
         # pylint: disable=no-self-use
         return value
 
-    def prepare_while(self, activation, exc_handler):
-        """Prepare while, by adding empty condition"""
+    def prepare_condition(self, activation, exc_handler):
+        """Prepare if or while, by adding empty condition"""
         # pylint: disable=no-self-use
         activation.conditions.append(DependencyAware(
             exc_handler=exc_handler
@@ -1824,6 +1849,7 @@ class Collector(object):
         """Collect ifexp"""
         # pylint: disable=too-many-arguments
         value = unset = object()
+        condition_count = len(activation.conditions)
         try:
             activation.dependencies.append(DependencyAware(
                 exc_handler=exc_handler,
@@ -1838,7 +1864,8 @@ class Collector(object):
             depa = activation.dependencies.pop()
             if activation.active and value is not unset:
                 self.eval_dep(activation, code_id, value, mode, depa)
-            self.remove_condition(activation)
+            # There is no condition to remove if the test has failed
+            del activation.conditions[condition_count:]
 
     def py2_repr(self, activation, code_id, exc_handler, mode):
         """Collect py2 `repr`"""
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index 1e3610e..1fcaa9f 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -59,21 +59,6 @@ class Assign(namedtuple("Assign", "checkpoint value dependency")):
             self.generators[obj_id] = generator
 
 
-class ConditionExceptions(object):
-    """Exception factory for handling ifs transformed into tries"""
-    # pylint: disable=too-few-public-methods
-    def __init__(self):
-        self.exceptions = {}
-
-    def __getitem__(self, item):
-        if item not in self.exceptions:
-            class ConditionException(Exception):
-                """If body Exception"""
-                pass
-            self.exceptions[item] = ConditionException
-        return self.exceptions[item]
-
-
 class DependencyAware(object):
     """Store dependencies of an element"""
 
-- 
2.43.0


From 7682b51d94247d7560f550a96e845b2900ed1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 14/95] fix: do not evaluate decorators and default values of
 functions twice

---
 .../collection/prov_definition/ast_helpers.py | 23 +++++++++++++++++--
 .../prov_definition/transformer_stmt.py       |  7 +++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_helpers.py b/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
index 16073b2..4b69eac 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
@@ -6,9 +6,9 @@
 
 import ast
 
-from .ast_elements import L
+from .ast_elements import L, none
 from contextlib import contextmanager
-from copy import copy
+from copy import copy, deepcopy
 
 
 def ast_copy(new_node, old_node):
@@ -206,3 +206,22 @@ def select_docstring(body):
         if isinstance(value, type(u"")):
             return [copy(body[0])]
     return []
+
+
+def original_function_def(node):
+    """Create function definition without capture and without the expressions
+    that execute in the definition (decorators, default values, annotations)"""
+    new_node = deepcopy(node)
+    new_node.name = "__now_original_" + node.name
+    new_node.decorator_list = []
+    new_node.returns = None
+    args = new_node.args
+    args.defaults = [ast_copy(none(), arg) for arg in args.defaults]
+    if hasattr(args, 'kw_defaults'):
+        args.kw_defaults = [
+            arg and ast_copy(none(), arg) for arg in args.kw_defaults
+        ]
+    for arg in ast.walk(args):
+        if hasattr(arg, 'annotation'):
+            arg.annotation = None
+    return new_node
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index e157e54..548a231 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -7,13 +7,14 @@ Collect definition provenance during the transformations"""
 
 import ast
 import os
-from copy import copy, deepcopy
+from copy import copy
 from contextlib import contextmanager
 
 import pyposast
 
 from .ast_helpers import ReplaceContextWithLoad, ast_copy, temporary
 from .ast_helpers import select_docstring, select_future_imports
+from .ast_helpers import original_function_def
 
 from .ast_elements import maybe, context
 from .ast_elements import L, S, none, call, param, true_false, true, false
@@ -237,9 +238,7 @@ class RewriteAST(ast.NodeTransformer):
             elif PY36 and isinstance(stmt, ast.AnnAssign):
                 self.visit_annassign(new_body, stmt)
             elif isinstance(stmt, ast.FunctionDef) or (PY36 and isinstance(stmt, ast.AsyncFunctionDef)):
-                old_fd = deepcopy(stmt)
-                old_fd.name = "__now_original_" + stmt.name
-                new_body.append(old_fd) 
+                new_body.append(original_function_def(stmt))
                 new_body.append(self.visit(stmt))
             elif isinstance(stmt, ast.Break):
                 self.visit_break(new_body, stmt)
-- 
2.43.0


From a476b4580c24895acb1a66febcf4382ffc3e7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 15/95] fix: create classes once, with their real bases,
 keywords and metaclass

---
 .../prov_definition/transformer_stmt.py       | 18 +++++--
 .../collection/prov_execution/collector.py    | 49 ++++++++++++-------
 .../collection/prov_execution/structures.py   | 10 ++++
 3 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 548a231..f4d9ed4 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -487,7 +487,7 @@ class RewriteAST(ast.NodeTransformer):
         @<now>.collect_class_def(<act>, 'c')
         @<now>.decorator(__now_activation__)(|dec|)
         @<now>.class_def(<act>)(<act>, <block_id>, <parameterss>)
-        class c(object):
+        class c(*<now>.class_bases(<act>), **<now>.class_keywords(<act>)):
             __now_activation__ = <now>.start_class(<act>, 'c', <block_id>)
             ...
         """
@@ -558,9 +558,21 @@ class RewriteAST(ast.NodeTransformer):
                 ), new_node),
             ] + self.process_body(old_body, class_id)
 
+            new_bases, new_keywords = node.bases, maybe(node, 'keywords')
+            if PY3:
+                # Bases and keywords were already evaluated by class_def
+                if new_bases:
+                    new_bases = [ast_copy(ast.Starred(noworkflow(
+                        'class_bases', [activation()]
+                    ), L()), node)]
+                if new_keywords:
+                    new_keywords = [ast.keyword(None, noworkflow(
+                        'class_keywords', [activation()]
+                    ))]
+
             result = ast_copy(class_def(
-                node.name, node.bases, body, decorators,
-                keywords=maybe(node, 'keywords')
+                node.name, new_bases, body, decorators,
+                keywords=new_keywords
             ), node)
             return result
 
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 4e0a58d..6d50f33 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -27,7 +27,7 @@ from ...utils.cross_version import cross_print, PY38
 from .structures import AssignAccess, Assign, Generator, FutureActivation
 from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
-from .structures import WithContext
+from .structures import WithContext, ClassDefinition
 
 NOW_UNSET = "<now_unset>"
 
@@ -101,6 +101,8 @@ class Collector(object):
         self.last_activation = self.first_activation
         self.future_activation = []
         self.shared_types = {}
+        # Classes being defined
+        self.class_definitions = []
 
         # Original globals
         self.globals = copy(__builtins__)
@@ -1353,9 +1355,13 @@ class Collector(object):
                         else:
                             future.bound_dependency = True
                     if function_def.__name__ in ("__new__", "__call__"):
-                        future.bound_dependency = Dependency(
-                            activation.func_evaluation, activation.func, "bound"
-                        )
+                        future.bound_dependency = (
+                            activation.func_evaluation is not None and
+                            Dependency(
+                                activation.func_evaluation, activation.func,
+                                "bound"
+                            )
+                        ) or True
                     if function_def.__name__ in {
                         '__getattr__', '__getattribute__', '__setattr__',
                         '__getitem__', '__setitem__', '__missing__'
@@ -1431,6 +1437,16 @@ class Collector(object):
             return function_def
         return dec
 
+    def class_bases(self, activation):
+        """Return bases of the class that is being defined"""
+        # pylint: disable=unused-argument
+        return self.class_definitions[-1].bases
+
+    def class_keywords(self, activation):
+        """Return keywords (e.g., metaclass) of the class that is being defined"""
+        # pylint: disable=unused-argument
+        return self.class_definitions[-1].keywords
+
     def start_class(self, last_activation, class_name, code_component_id):
         """Start script collection. Create new activation"""
         activation = self.start_activation(
@@ -1438,6 +1454,7 @@ class Collector(object):
             last_activation
         )
         activation.closure = last_activation
+        self.class_definitions[-1].activation = activation
         return activation
 
     def class_def(self, activation, code_id, exc_handler):
@@ -1450,24 +1467,18 @@ class Collector(object):
         ))
         return self._class_def
 
-    def _class_def(self, mode, bases=(object,), metaclass=type, **kwargs):
+    def _class_def(self, mode, bases=(), **kwargs):
         """Decorate class definition with then new activation.
         Collect arguments and match to parameters.
         """
-        def dec(cls):
-            """Decorate class definition. Based on six.add_metaclass"""
-            orig_vars = cls.__dict__.copy()
-            slots = orig_vars.get('__slots__')
-            if slots is not None:
-                if isinstance(slots, str):
-                    slots = [slots]
-                for slots_var in slots:
-                    orig_vars.pop(slots_var)
-            orig_vars.pop('__dict__', None)
-            orig_vars.pop('__weakref__', None)
-            class_def = metaclass(cls.__name__, bases, orig_vars, **kwargs)
-
-            activation = orig_vars['__now_activation__']
+        # The class statement uses the evaluated bases and keywords
+        position = len(self.class_definitions)
+        definition = ClassDefinition(bases, kwargs)
+        self.class_definitions.append(definition)
+        def dec(class_def):
+            """Decorate class definition"""
+            del self.class_definitions[position:]
+            activation = definition.activation
             evaluation = activation.evaluation
             closure_activation = activation.closure
             block_id = activation.code_block_id
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index 1fcaa9f..b9859f4 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -212,6 +212,16 @@ class CollectionDependencyAware(DependencyAware):
         self.items = []
 
 
+class ClassDefinition(object):
+    """Store the arguments and the activation of a class definition"""
+    # pylint: disable=too-few-public-methods
+
+    def __init__(self, bases, keywords):
+        self.bases = bases
+        self.keywords = keywords
+        self.activation = None
+
+
 class WithContext(object):
 
     def __init__(self, now, context, activation, exc_handler):
-- 
2.43.0


From ebb26b171a5a5a64d8ca9f1b8fa16c9573804453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 16/95] fix: support zero-argument super, locals, vars, dir,
 globals, eval and exec

---
 .../collection/prov_execution/collector.py    | 50 ++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 6d50f33..acb285a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -5,6 +5,7 @@
 """Execution provenance collector"""
 # pylint: disable=too-many-lines
 
+import builtins
 import sys
 import weakref
 import os
@@ -31,6 +32,12 @@ from .structures import WithContext, ClassDefinition
 
 NOW_UNSET = "<now_unset>"
 
+# Builtins that read the frame of their caller
+EVAL_BUILTINS = (eval,)
+if PY3:
+    EVAL_BUILTINS += (getattr(builtins, "exec"),)
+FRAME_BUILTINS = EVAL_BUILTINS + (dir, globals, locals, super, vars)
+
 OPEN_MODES = {
     # All
     "O_RDONLY": "r",
@@ -1198,6 +1205,42 @@ class Collector(object):
         activation.dependencies.append(depa)
         return self._call
 
+    def call_in_frame(self, frame, func, args, kwargs):
+        """Call builtin function that depends on the frame of its caller"""
+        # pylint: disable=no-self-use, eval-used, exec-used
+        while frame.f_back and frame.f_back.f_code is self.ifexp.__code__:
+            # lambda created for conditional expressions
+            frame = frame.f_back.f_back
+        if kwargs or len(args) != int(func in EVAL_BUILTINS):
+            return func(*args, **kwargs)
+        if func in EVAL_BUILTINS:
+            return func(args[0], frame.f_globals, frame.f_locals)
+        if func is globals:
+            return frame.f_globals
+        if func is super:
+            code = frame.f_code
+            names = [
+                name for name in code.co_varnames[:code.co_argcount]
+                if not name.startswith("__now_")
+            ]
+            if not names:
+                raise RuntimeError("super(): no arguments")
+            if "__class__" not in frame.f_locals:
+                raise RuntimeError("super(): __class__ cell not found")
+            return super(
+                frame.f_locals["__class__"], frame.f_locals[names[0]]
+            )
+        scope = frame.f_locals
+        if scope is not frame.f_globals:
+            scope = {
+                key: value for key, value in viewitems(scope)
+                if not key.startswith("__now_")
+            }
+        if func is dir:
+            return sorted(
+                key for key in scope if not key.startswith("__now_"))
+        return scope  # locals and vars
+
     def _call(self, *args, **kwargs):
         """Capture call activation"""        
         future = self.future_activation.pop()
@@ -1219,7 +1262,12 @@ class Collector(object):
         eva = activation.evaluation
         result = None
         try:
-            result = future.func(*args, **kwargs)
+            if any(future.func is func for func in FRAME_BUILTINS):
+                result = self.call_in_frame(
+                    sys._getframe(1), future.func, args, kwargs
+                )
+            else:
+                result = future.func(*args, **kwargs)
         except Exception:
             self.collect_exception(activation)
             raise
-- 
2.43.0


From a64582334e718fef93274011f6e7f0573c342e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 17/95] fix: define classes inside classes and functions in
 their own activations

---
 .../collection/prov_definition/transformer_stmt.py    |  8 ++++----
 .../now/collection/prov_execution/collector.py        | 11 +++++++----
 .../now/collection/prov_execution/structures.py       |  3 ++-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index f4d9ed4..d89428b 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -486,9 +486,9 @@ class RewriteAST(ast.NodeTransformer):
         Into:
         @<now>.collect_class_def(<act>, 'c')
         @<now>.decorator(__now_activation__)(|dec|)
-        @<now>.class_def(<act>)(<act>, <block_id>, <parameterss>)
+        @<now>.class_def(<act>, <block_id>, <exc>)(<act>, <mode>, |bases|, |keywords|)
         class c(*<now>.class_bases(<act>), **<now>.class_keywords(<act>)):
-            __now_activation__ = <now>.start_class(<act>, 'c', <block_id>)
+            __now_activation__ = <now>.start_class('c', <block_id>)
             ...
         """
         # pylint: disable=invalid-name
@@ -525,6 +525,7 @@ class RewriteAST(ast.NodeTransformer):
                     ast.Num(self.container_id),
                     ast.Num(old_exc_handler)
                 ], [
+                    activation(),
                     ast.Str(Dependency.DECORATE),
                     ast.Tuple(bases, L()),
                 ]
@@ -551,8 +552,7 @@ class RewriteAST(ast.NodeTransformer):
                 ast_copy(ast.Assign(
                     [ast.Name('__now_activation__', S())],
                     noworkflow('start_class', [
-                        activation(), 
-                        ast.Str(new_node.name), 
+                        ast.Str(new_node.name),
                         ast.Num(class_id)
                     ])
                 ), new_node),
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index acb285a..32f8ffd 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1495,8 +1495,11 @@ class Collector(object):
         # pylint: disable=unused-argument
         return self.class_definitions[-1].keywords
 
-    def start_class(self, last_activation, class_name, code_component_id):
-        """Start script collection. Create new activation"""
+    def start_class(self, class_name, code_component_id):
+        """Start class collection. Create new activation"""
+        # The class body does not see the activation of functions and classes
+        # around it, since it defines __now_activation__
+        last_activation = self.class_definitions[-1].closure
         activation = self.start_activation(
             class_name, code_component_id, code_component_id,
             last_activation
@@ -1515,13 +1518,13 @@ class Collector(object):
         ))
         return self._class_def
 
-    def _class_def(self, mode, bases=(), **kwargs):
+    def _class_def(self, closure, mode, bases=(), **kwargs):
         """Decorate class definition with then new activation.
         Collect arguments and match to parameters.
         """
         # The class statement uses the evaluated bases and keywords
         position = len(self.class_definitions)
-        definition = ClassDefinition(bases, kwargs)
+        definition = ClassDefinition(closure, bases, kwargs)
         self.class_definitions.append(definition)
         def dec(class_def):
             """Decorate class definition"""
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index b9859f4..f66fb46 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -216,7 +216,8 @@ class ClassDefinition(object):
     """Store the arguments and the activation of a class definition"""
     # pylint: disable=too-few-public-methods
 
-    def __init__(self, bases, keywords):
+    def __init__(self, closure, bases, keywords):
+        self.closure = closure
         self.bases = bases
         self.keywords = keywords
         self.activation = None
-- 
2.43.0


From b869981526fc95b67cb2e25042d5118d76dff76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 18/95] fix: mangle private attributes of classes

---
 .../collection/prov_definition/transformer_expr.py   |  2 +-
 .../collection/prov_definition/transformer_stmt.py   | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 45c509a..f076eb4 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -1069,7 +1069,7 @@ class RewriteDependencies(ast.NodeTransformer):
                     activation(),
                     ast.Num(attribute_component),
                     self.rewriter.capture(node.value, mode=Dependency.VALUE),
-                    ast.Str(node.attr),
+                    ast.Str(self.rewriter.mangle(node.attr)),
                     ast.Str('.'),
                     ast.Str(mode),
                 ], L()),
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index d89428b..a60c177 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -53,6 +53,7 @@ class RewriteAST(ast.NodeTransformer):
         self.exc_handler_counter = 0
         self.current_exc_handler = 0
         self.cell = cell
+        self.class_name = None
         self.composition_edge = None
 
     # data
@@ -117,6 +118,13 @@ class RewriteAST(ast.NodeTransformer):
             self.trial_id, part, whole, typ, pos, extra
         )
 
+    def mangle(self, name):
+        """Mangle private name of class"""
+        class_name = (self.class_name or "").lstrip("_")
+        if class_name and name.startswith("__") and not name.endswith("__"):
+            return "_{}{}".format(class_name, name)
+        return name
+
     def create_exc_handler(self):
         """Create new exception handler id"""
         self.exc_handler_counter += 1
@@ -548,6 +556,8 @@ class RewriteAST(ast.NodeTransformer):
             ) 
             if has_doc:
                 docstring, old_body = old_body[:1], old_body[1:]
+            with temporary(self, 'class_name', node.name):
+                class_body = self.process_body(old_body, class_id)
             body = docstring + [
                 ast_copy(ast.Assign(
                     [ast.Name('__now_activation__', S())],
@@ -556,7 +566,7 @@ class RewriteAST(ast.NodeTransformer):
                         ast.Num(class_id)
                     ])
                 ), new_node),
-            ] + self.process_body(old_body, class_id)
+            ] + class_body
 
             new_bases, new_keywords = node.bases, maybe(node, 'keywords')
             if PY3:
-- 
2.43.0


From 999576384052024d6c1a57628c705e11d97e4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 19/95] fix: record accesses to bytes paths, special files, and
 files opened before a chdir

---
 .../collection/prov_execution/collector.py    | 29 ++++++++++++++-----
 .../persistence/lightweight/file_access.py    |  3 +-
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 32f8ffd..f44f21c 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -149,6 +149,19 @@ class Collector(object):
         """Return value without any processing"""
         return value
 
+    def file_content_hash(self, file_access):
+        """Store current content of the accessed file. Return its hash"""
+        # pylint: disable=no-self-use
+        # Do not read pipes, devices or directories
+        if not os.path.isfile(file_access.path):
+            return None
+        try:
+            with content.std_open(file_access.path, "rb") as fil:
+                data = fil.read()
+        except OSError:
+            return None
+        return content.put(data, file_access.name)
+
     def new_open(self, old_open, osopen=False):
         """Wrap the open builtin function to register file access"""
         def open(*args, **kwargs):  # pylint: disable=redefined-builtin
@@ -175,13 +188,14 @@ class Collector(object):
             if not activation:
                 return old_open(name, *args, **kwargs)
             # Create a file access object with default values
+            filename = os.fsdecode(name)
             file_access = self.file_accesses.add_object(
-                self.trial_id, name, self.get_time()
+                self.trial_id, filename, self.get_time()
             )
-            if os.path.exists(name):
-                # Read previous content if file exists
-                with content.std_open(name, "rb") as fil:
-                    file_access.content_hash_before = content.put(fil.read(), name)
+            # The working directory may change before closing the activation
+            file_access.path = os.path.abspath(filename)
+            file_access.content_hash_before = self.file_content_hash(
+                file_access)
             file_access.activation_id = activation.id
             # Update with the informed keyword arguments (mode / buffering)
             file_access.update(kwargs)
@@ -441,9 +455,8 @@ class Collector(object):
         self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
         for file_access in activation.file_accesses:
-            if os.path.exists(file_access.name):
-                with content.std_open(file_access.name, "rb") as fil:
-                    file_access.content_hash_after = content.put(fil.read(), file_access.name)
+            file_access.content_hash_after = self.file_content_hash(
+                file_access)
             file_access.done = True
 
     def start_script(self, module_name, code_component_id, iscell):
diff --git a/capture/noworkflow/now/persistence/lightweight/file_access.py b/capture/noworkflow/now/persistence/lightweight/file_access.py
index 36d2d3d..1b0504a 100644
--- a/capture/noworkflow/now/persistence/lightweight/file_access.py
+++ b/capture/noworkflow/now/persistence/lightweight/file_access.py
@@ -21,7 +21,7 @@ class FileAccessLW(BaseLW):
         ["trial_id", "id", "name", "mode", "buffering",
          "content_hash_before", "content_hash_after",
          "checkpoint", "activation_id"],
-        ["done"]
+        ["path", "done"]
     )
     nullable = {"activation_id"}
     model = FileAccess
@@ -33,6 +33,7 @@ class FileAccessLW(BaseLW):
         self.trial_id = trial_id
         self.id = id_                                                            # pylint: disable=invalid-name
         self.name = str(name)
+        self.path = self.name
         self.mode = mode
         self.buffering = buffering
         self.content_hash_before = content_hash_before
-- 
2.43.0


From 3f71fab237a060911bde4225aee3a904717af3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:08 +0000
Subject: [PATCH 20/95] fix: evaluate keyword-only default values once; support
 async generators and type parameters

---
 .../prov_definition/ast_elements.py           | 15 ++++++++----
 .../collection/prov_definition/ast_helpers.py | 19 +++++++++------
 .../prov_definition/transformer_expr.py       |  4 ++--
 .../prov_definition/transformer_stmt.py       | 12 +++++-----
 .../collection/prov_execution/collector.py    | 24 +++++++++++++++----
 5 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_elements.py b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
index 251cda7..3a62c98 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_elements.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
@@ -154,24 +154,31 @@ def param(value, annotation=None):
     return ast.Name(value, P())
 
 
-def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef):     # pylint: disable=too-many-arguments
+def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef, type_params=None):     # pylint: disable=too-many-arguments
     """Create function definition"""
     constructor = [name, args, body, decs]
     if PY3:
         constructor.append(returns)
 
-    return cls(*constructor)
+    result = cls(*constructor)
+    if type_params:
+        result.type_params = type_params
+    return result
 
 
-def class_def(name, bases, body, decorators, keywords=None):
+def class_def(name, bases, body, decorators, keywords=None, type_params=None):
     """Create class definition"""
+    # pylint: disable=too-many-arguments
     constructor = [name, bases]
     if PY3:
         constructor.append(keywords)
     constructor.append(body)
     constructor.append(decorators)
 
-    return ast.ClassDef(*constructor)
+    result = ast.ClassDef(*constructor)
+    if type_params:
+        result.type_params = type_params
+    return result
 
 def try_def(body, handlers, orelse, finalbody, node=None):
     """Create try block"""
diff --git a/capture/noworkflow/now/collection/prov_definition/ast_helpers.py b/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
index 4b69eac..810f789 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
@@ -208,6 +208,16 @@ def select_docstring(body):
     return []
 
 
+def remove_default_values(args):
+    """Replace default values of function arguments by None.
+    The default values are evaluated by <now>.function_def"""
+    args.defaults = [ast_copy(none(), arg) for arg in args.defaults]
+    if hasattr(args, 'kw_defaults'):
+        args.kw_defaults = [
+            arg and ast_copy(none(), arg) for arg in args.kw_defaults
+        ]
+
+
 def original_function_def(node):
     """Create function definition without capture and without the expressions
     that execute in the definition (decorators, default values, annotations)"""
@@ -215,13 +225,8 @@ def original_function_def(node):
     new_node.name = "__now_original_" + node.name
     new_node.decorator_list = []
     new_node.returns = None
-    args = new_node.args
-    args.defaults = [ast_copy(none(), arg) for arg in args.defaults]
-    if hasattr(args, 'kw_defaults'):
-        args.kw_defaults = [
-            arg and ast_copy(none(), arg) for arg in args.kw_defaults
-        ]
-    for arg in ast.walk(args):
+    remove_default_values(new_node.args)
+    for arg in ast.walk(new_node.args):
         if hasattr(arg, 'annotation'):
             arg.annotation = None
     return new_node
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index f076eb4..129179e 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -12,7 +12,7 @@ from copy import copy
 
 import pyposast
 
-from .ast_helpers import ast_copy
+from .ast_helpers import ast_copy, remove_default_values
 
 from .ast_elements import L, S, context, none, call, param, true
 from .ast_elements import noworkflow, double_noworkflow
@@ -263,7 +263,7 @@ class RewriteDependencies(ast.NodeTransformer):
             [new_node]
         ), new_node)
         rewriter.add_now_parameters(new_node.args)
-        new_node.args.defaults = [none() for _ in new_node.args.defaults]
+        remove_default_values(new_node.args)
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
         new_node.body = ast_copy(double_noworkflow('match_arguments', [
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index a60c177..d44bd2d 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -14,7 +14,7 @@ import pyposast
 
 from .ast_helpers import ReplaceContextWithLoad, ast_copy, temporary
 from .ast_helpers import select_docstring, select_future_imports
-from .ast_helpers import original_function_def
+from .ast_helpers import original_function_def, remove_default_values
 
 from .ast_elements import maybe, context
 from .ast_elements import L, S, none, call, param, true_false, true, false
@@ -471,12 +471,11 @@ class RewriteAST(ast.NodeTransformer):
             ] + self.process_body(new_node.body, func_id)
 
             self.add_now_parameters(new_node.args)
-            new_node.args.defaults = [
-                ast_copy(none(), arg) for arg in new_node.args.defaults
-            ]
+            remove_default_values(new_node.args)
             return ast_copy(function_def(
                 new_node.name, new_node.args, body, decorators,
-                returns=maybe(new_node, 'returns'), cls=cls
+                returns=maybe(new_node, 'returns'), cls=cls,
+                type_params=maybe(new_node, 'type_params')
             ), new_node)
 
     def visit_AsyncFunctionDef(self, node):
@@ -582,7 +581,8 @@ class RewriteAST(ast.NodeTransformer):
 
             result = ast_copy(class_def(
                 node.name, new_bases, body, decorators,
-                keywords=new_keywords
+                keywords=new_keywords,
+                type_params=maybe(node, 'type_params')
             ), node)
             return result
 
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index f44f21c..d5fb9b2 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -16,6 +16,7 @@ from collections import OrderedDict
 from copy import copy
 from datetime import datetime, timedelta
 from functools import wraps
+import types
 from types import GeneratorType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
@@ -32,6 +33,10 @@ from .structures import WithContext, ClassDefinition
 
 NOW_UNSET = "<now_unset>"
 
+GENERATORS = (GeneratorType,)
+if hasattr(types, "AsyncGeneratorType"):
+    GENERATORS += (types.AsyncGeneratorType,)
+
 # Builtins that read the frame of their caller
 EVAL_BUILTINS = (eval,)
 if PY3:
@@ -1463,12 +1468,20 @@ class Collector(object):
                     self.make_dependencies(activation, evaluation, depa)
                     bound_dependency.mode = old_mode
                     
-                if isinstance(result, GeneratorType):
+                if isinstance(result, GENERATORS):
                     activation.generator = Generator()
                     activation.generator.value = result
                 return result
             if default_values[0]:
                 function_def.__defaults__ = default_values[0]
+            kwdefaults = getattr(function_def, "__kwdefaults__", None)
+            if kwdefaults:
+                code = function_def.__code__
+                names = code.co_varnames[code.co_argcount:]
+                function_def.__kwdefaults__ = {
+                    key: value for key, value in zip(names, default_values[1])
+                    if key in kwdefaults
+                }
             if mode == "decorate":
                 # It is popped by collect_function_def. Lambdas do not have it
                 closure_activation.dependencies.append(DependencyAware(
@@ -1593,9 +1606,9 @@ class Collector(object):
         if not activation.active:
             return self.as_is
         # pylint: disable=too-many-locals, too-many-branches
-        # ToDo: use kw_defaults from default_values # pylint: disable=unused-variable
         time = self.time()
-        defaults = default_dependencies.dependencies
+        defaults = default_dependencies.dependencies[:len(default_values[0])]
+        kw_defaults = default_dependencies.dependencies[len(default_values[0]):]
         args, vararg, kwarg, kwonlyargs = params
 
         arguments = []
@@ -1622,8 +1635,11 @@ class Collector(object):
         if vararg:
             parameters[vararg[0]] = Parameter(*vararg, is_vararg=True)
         if kwonlyargs:
+            with_default = function_def.__kwdefaults__ or ()
             for arg in kwonlyargs:
-                parameters[arg[0]] = Parameter(*arg)
+                param = parameters[arg[0]] = Parameter(*arg)
+                if arg[0] in with_default and kw_defaults:
+                    param.default = kw_defaults.pop(0)
         if kwarg:
             parameters[kwarg[0]] = Parameter(*kwarg)
 
-- 
2.43.0


From 6a8f5b09e48b076e66c32e08a6e9ed0cbcbd3141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:08 +0000
Subject: [PATCH 21/95] fix: create components of captured expressions without
 their own component (walrus)

---
 .../now/collection/prov_definition/transformer_stmt.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index d44bd2d..1b37dab 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -63,9 +63,9 @@ class RewriteAST(ast.NodeTransformer):
         if hasattr(citem, 'code_component_id'):
             return ast.Num(citem.code_component_id)
         elif fallback:
-            name = pyposast.extract_code(self.lcode, node)
+            node.name = pyposast.extract_code(self.lcode, node)
             id_ = self.create_code_component(
-                node, name, mode
+                node, node_type, mode
             )
             self.create_composition(id_, *self.composition_edge)
             return ast.Num(id_)
-- 
2.43.0


From 1d9b72c773c513cc3236759845d2578cabcea843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 22/95] fix: iterate comprehensions beyond the capture depth

---
 .../now/collection/prov_definition/transformer_expr.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 129179e..6062c46 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -425,11 +425,12 @@ class RewriteDependencies(ast.NodeTransformer):
         ), new_node.iter)
 
         ifs = []
-        ifs.append(ast_copy(noworkflow('assign', [
+        # Tuple: the iteration occurs whatever the result of assign is
+        ifs.append(ast_copy(ast.Tuple([noworkflow('assign', [
             activation(),
             noworkflow('pop_assign', [activation()]),
             new_node.target.target_expr,
-        ]), new_node))
+        ])], L()), new_node))
 
         if new_node.ifs:
             if len(new_node.ifs) > 1:
-- 
2.43.0


From a64179003f9fce08efd1bdb54abe7c230a14677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 23/95] fix: keep running beyond the capture depth (operators,
 constructors)

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d5fb9b2..1eec6f8 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -431,6 +431,7 @@ class Collector(object):
             exc_handler=float('inf'), # do not delete
         ))
         activation.parent = act
+        activation.last_activation = self.last_activation
         self.last_activation = activation
         return activation
 
@@ -1457,7 +1458,8 @@ class Collector(object):
                     activation, function_def, args, kwargs, default_values, defaults, *args, **kwargs
                 )
                 bound_dependency = activation.bound_dependency
-                if function_def.__name__ == "__init__" and bound_dependency:
+                if (function_def.__name__ == "__init__" and bound_dependency and
+                        bound_dependency is not True):
                     old_mode = bound_dependency.mode
                     depa = DependencyAware()
                     value = args[0]
-- 
2.43.0


From 6c648c25d50f65427342deeb6636ed14c5a993c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:56 +0000
Subject: [PATCH 24/95] fix: conditions of comprehensions with more than one
 generator

---
 .../prov_definition/transformer_expr.py       | 42 ++++++------
 .../collection/prov_execution/collector.py    | 67 +++++++++++++------
 .../collection/prov_execution/structures.py   |  4 ++
 3 files changed, 74 insertions(+), 39 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 6062c46..8603857 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -396,7 +396,7 @@ class RewriteDependencies(ast.NodeTransformer):
             set_key=lambda: ('item', none())
         )
 
-    def visit_generator(self, node, code_id=-1, count=0):
+    def visit_generator(self, node, code_id=-1, count=0, generator=None):
         """Visit comprehension"""
         # ToDo: consider node.is_async
         id_ = self.rewriter.create_ast_component(node, Component.COMPREHENSION)
@@ -449,35 +449,37 @@ class RewriteDependencies(ast.NodeTransformer):
                 [
                     activation(),
                     ast.Num(self.rewriter.current_exc_handler),
+                    ast.Num(count),
+                    generator or none(),
                 ], [
                     activation(),
-                    ast.Num(count),
-                    if1
+                    if1,
+                    generator or none(),
                 ]
             ), new_node.ifs[0]))
         new_node.ifs = ifs
         return new_node
 
-    def visit_ListComp(self, node, comp='list', set_key=None, result=None):
+    def visit_ListComp(self, node, comp='list', set_key=None, result=None, generator=None):
         """Visit ListComp
         Transform:
             [x for x in l if y if z
                for k in l2 if w]
         Into:
             <now>.list(<act>, #, <exc>)(<act>, #, [
-                <now>.comprehension_item(
+                <now>.comprehension_item(<act>, None)(
                     <act>,
                     <now>.item(<act>, #, <exc>)(
                         <act>, #, |x|, -1
                     ),
-                    2
+                    None
                 )
                 for x in <now>.loop(<act>, #, <exc>)(<act>, |l|)
                 if <now>.assign(<act>, <now>.pop_assign(<act>), target(x))
-                if <now>.rcondition(<act>, <exc>)(<act>, 1, |y| and |z|)
+                if <now>.rcondition(<act>, <exc>, 1, <gen>)(<act>, |y| and |z|, <gen>)
                 for k in <now>.loop(<act>, #, <exc>)(<act>, |l2|)
                 if <now>.assign(<act>, <now>.pop_assign(<act>), target(k))
-                if <now>.rcondition(<act>, <exc>)(<act>, 2, |w|)
+                if <now>.rcondition(<act>, <exc>, 2, <gen>)(<act>, |w|, <gen>)
             ], <mode>)
         """
 
@@ -500,13 +502,15 @@ class RewriteDependencies(ast.NodeTransformer):
             if gen.ifs:
                 total += 1
             gens.append(self.visit_generator(
-                gen, code_id=list_code_component, count=total
+                gen, code_id=list_code_component, count=total,
+                generator=generator
             ))
         new_node.generators = gens
 
-        item = ast_copy(noworkflow(
+        item = ast_copy(double_noworkflow(
             'comprehension_item',
-            [activation(), item, ast.Num(total)],
+            [activation(), generator or none()],
+            [activation(), item, generator or none()],
         ), new_node.elt)
         new_node.elt = item
 
@@ -535,14 +539,14 @@ class RewriteDependencies(ast.NodeTransformer):
             {x for x in l if y if z}
         Into:
             <now>.set(<act>, #, <exc>)(<act>, #, {
-                <now>.remove_conditions(<act>, 1)(
+                <now>.comprehension_item(<act>, <gen>)(<act>, 
                     <now>.item(<act>, #, <exc>)(
                         <act>, #, |x|, None
                     )
                 )
                 for x in <now>.loop(<act>, <exc>)(<act>, |l|)
                 if <now>.assign(<act>, <now>.pop_assign(<act>), target(x))
-                if <now>.rcondition(<act>, <exc>)(<act>, 1, |y| and |z|)
+                if <now>.rcondition(<act>, <exc>, 1, <gen>)(<act>, |y| and |z|, <gen>)
             }, <mode>)
         """
         return self.visit_ListComp(
@@ -557,10 +561,10 @@ class RewriteDependencies(ast.NodeTransformer):
         Into:
             <now>.dict(<act>, #, <exc>)(<act>, #, {
                 <now>.comp_key(<act>, #, <exc>)(<act>, #, |x|, 1):
-                    <now>.comp_value(<act>, #, <exc>)(<act>, #, |z|, 1)
+                    <now>.comp_value(<act>, #, <exc>)(<act>, #, |z|)
                 for x in <now>.loop(<act>, <exc>)(<act>, |l|)
                 if <now>.assign(<act>, <now>.pop_assign(<act>), target(x))
-                if <now>.rcondition(<act>, <exc>)(<act>, 1, |y|)
+                if <now>.rcondition(<act>, <exc>, 1, None)(<act>, |y|, None)
             }, <mode>)
         """
         node.name = pyposast.extract_code(self.rewriter.lcode, node)
@@ -583,7 +587,7 @@ class RewriteDependencies(ast.NodeTransformer):
         new_node.generators = gens
         self.composition_edge = (list_code_component, Component.S_KEY_VALUE)
         new_node.key, new_node.value = self._dict_itemize(
-            node.key, node.value, func='comp', extra=[ast.Num(total)]
+            node.key, node.value, func='comp'
         )
 
         return ast_copy(double_noworkflow(
@@ -606,14 +610,14 @@ class RewriteDependencies(ast.NodeTransformer):
             (x for x in l if y if z)
         Into:
             <now>.genexp(<act>, #, <exc>, (lambda <gen>: (
-                <now>.remove_conditions(<act>, 1)(
+                <now>.comprehension_item(<act>, <gen>)(<act>, 
                     <now>.genitem(<act>, #, <exc>)(
                         <act>, #, |x|, <gen>
                     )
                 )
                 for x in <now>.loop(<act>, <exc>)(<act>, |l|)
                 if <now>.assign(<act>, <now>.pop_assign(<act>), target(x))
-                if <now>.rcondition(<act>, <exc>)(<act>, 1, |y| and |z|)
+                if <now>.rcondition(<act>, <exc>, 1, <gen>)(<act>, |y| and |z|, <gen>)
             )), <mode>)
         """
         def result(new_node, code_id):
@@ -634,7 +638,7 @@ class RewriteDependencies(ast.NodeTransformer):
         return self.visit_ListComp(
             node, comp="genexp",
             set_key=lambda: ("genitem", ast.Name("__now_generator__", L())),
-            result=result,
+            result=result, generator=ast.Name("__now_generator__", L()),
         )
 
     def visit_Await(self, node):
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 1eec6f8..84a46aa 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -497,6 +497,8 @@ class Collector(object):
         while deps and exc_handler >= deps[-1].exc_handler:
             depa = deps.pop()
             code_id = code_id or depa.code_id
+            if isinstance(depa, CollectionDependencyAware):
+                self.suspend_conditions(activation, depa)
 
         self.exceptions.add(self.trial_id, exc, activation.id)
 
@@ -690,15 +692,17 @@ class Collector(object):
 
     def comp_key(self, activation, code_id, exc_handler):
         """Capture dict comprehension key before"""
+        if PY38:
+            self.resume_conditions(activation, activation.dependencies[-1])
         self.dict_key(activation, code_id, exc_handler)
         return self._comp_key
 
-    def _comp_key(self, activation, code_id, value, count):
+    def _comp_key(self, activation, code_id, value):
         """Capture dict comprehension key after"""
         # pylint: disable=no-self-use, unused-argument
         self._dict_key(activation, code_id, value, final=not PY38)
         if not PY38:
-            self.remove_conditions(activation, count)
+            self.suspend_conditions(activation, activation.dependencies[-1])
         return value
 
     def dict_value(self, activation, code_id, exc_handler):
@@ -721,15 +725,17 @@ class Collector(object):
 
     def comp_value(self, activation, code_id, exc_handler):
         """Capture dict comprehension value before"""
+        if not PY38:
+            self.resume_conditions(activation, activation.dependencies[-1])
         self.dict_value(activation, code_id, exc_handler)
         return self._comp_value
 
-    def _comp_value(self, activation, code_id, value, count):
+    def _comp_value(self, activation, code_id, value):
         """Capture dict comprehension value after"""
         # pylint: disable=no-self-use, unused-argument
         self._dict_value(activation, code_id, value, final=PY38)
         if PY38:
-            self.remove_conditions(activation, count)
+            self.suspend_conditions(activation, activation.dependencies[-1])
         return value
 
     def after_dict_item(self, activation, value_depa, member_depa):
@@ -912,9 +918,16 @@ class Collector(object):
             self.eval_dep(activation, code_id, value, mode, depa)
         return value
 
-    def comprehension_item(self, activation, value, condition_count):
+    def comprehension_item(self, activation, generator):
+        """Apply conditions of comprehension item"""
+        self.resume_conditions(
+            activation, generator or activation.dependencies[-1])
+        return self._comprehension_item
+
+    def _comprehension_item(self, activation, value, generator):
         """Remove conditions of comprehension item"""
-        self.remove_conditions(activation, condition_count)
+        self.suspend_conditions(
+            activation, generator or activation.dependencies[-1])
         return value
 
     def slice(self, activation, code_id, exc_handler):
@@ -1901,31 +1914,45 @@ class Collector(object):
         activation.conditions[-2:] = activation.conditions[-1:]
         return value
 
-    def rcondition(self, activation, exc_handler):
-        """Capture rcondition before. Remove conditions if false"""
+    def rcondition(self, activation, exc_handler, level, generator):
+        """Capture comprehension condition before.
+        It replaces the condition of the same level in previous iterations"""
+        comprehension = generator or activation.dependencies[-1]
+        self.suspend_conditions(activation, comprehension)
+        del comprehension.conditions[level - 1:]
+        self.resume_conditions(activation, comprehension)
         self.condition(activation, exc_handler)
         return self._rcondition
 
-    def _rcondition(self, activation, count, value):
-        """Capture rcondition after. Remove conditions if false"""
-        # pylint: disable=no-self-use
+    def _rcondition(self, activation, value, generator):
+        """Capture comprehension condition after.
+        It applies to the following elements, if it is true"""
         self._condition(activation, value)
-        if not value:
-            self.remove_conditions(activation, count)
-
+        condition = activation.conditions.pop()
+        comprehension = generator or activation.dependencies[-1]
+        if value:
+            comprehension.conditions.append(condition)
+        self.suspend_conditions(activation, comprehension)
         return value
 
+    def resume_conditions(self, activation, comprehension):
+        """Apply conditions of comprehension"""
+        # pylint: disable=no-self-use
+        activation.conditions.extend(comprehension.conditions)
+
+    def suspend_conditions(self, activation, comprehension):
+        """Do not apply conditions of comprehension"""
+        # pylint: disable=no-self-use
+        for condition in comprehension.conditions:
+            activation.conditions = [
+                cond for cond in activation.conditions if cond is not condition
+            ]
+
     def remove_condition(self, activation):
         """Just remove the condition dependencies"""
         activation.conditions.pop()
         return self._remove_condition
 
-    def remove_conditions(self, activation, count):
-        """Just remove count condition dependencies"""
-        for _ in range(count):
-            activation.conditions.pop()
-        return self._remove_condition
-
     def _remove_condition(self, value):
         """Remove condition after"""
         # pylint: disable=no-self-use
diff --git a/capture/noworkflow/now/collection/prov_execution/structures.py b/capture/noworkflow/now/collection/prov_execution/structures.py
index f66fb46..a636e0c 100644
--- a/capture/noworkflow/now/collection/prov_execution/structures.py
+++ b/capture/noworkflow/now/collection/prov_execution/structures.py
@@ -143,6 +143,8 @@ class Generator(object):
         self.value = None
         self.evaluation = None
         self.dependency = None
+        # conditions of generator expression
+        self.conditions = []
 
 class Dependency(object):
     """Represent a dependency"""
@@ -210,6 +212,8 @@ class CollectionDependencyAware(DependencyAware):
         )
         # list of tuples representing (item name, evaluation_id, time)
         self.items = []
+        # conditions of comprehension
+        self.conditions = []
 
 
 class ClassDefinition(object):
-- 
2.43.0


From 60422aaf398d6a02ceb41c2a6e40b8bd14395643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 25/95] fix: conditional and generator expressions that assign,
 yield or await; async comprehensions

---
 .../prov_definition/transformer_expr.py       | 95 +++++++++++++++++++
 1 file changed, 95 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 8603857..d2f59e6 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -24,6 +24,28 @@ from . import component_constants as Component
 from ...utils.cross_version import PY3, PY35
 
 
+def needs_own_scope(node):
+    """Check if the expression has to be evaluated directly in its scope"""
+    types = tuple(
+        getattr(ast, name)
+        for name in ('NamedExpr', 'Yield', 'YieldFrom', 'Await')
+        if hasattr(ast, name)
+    )
+    stack = [node]
+    while stack:
+        current = stack.pop()
+        if isinstance(current, types):
+            return True
+        if not isinstance(current, ast.Lambda):
+            stack.extend(ast.iter_child_nodes(current))
+    return False
+
+
+def is_async_comprehension(node):
+    """Check if the comprehension has an `async for`"""
+    return any(getattr(gen, 'is_async', 0) for gen in node.generators)
+
+
 class RewriteDependencies(ast.NodeTransformer):
     """Capture Dependencies"""
     # pylint: disable=too-many-public-methods
@@ -301,6 +323,8 @@ class RewriteDependencies(ast.NodeTransformer):
                     |a| if <now>.condition(<act>, <exc>)(<act>, |b|) else |c|
             )
         """
+        if needs_own_scope(node):
+            return self.visit_inline_ifexp(node)
         with self.rewriter.exc_handler():
             new_node = copy(node)
             node.name = pyposast.extract_code(self.rewriter.lcode, node)
@@ -337,6 +361,41 @@ class RewriteDependencies(ast.NodeTransformer):
                 ]
             ), node)
 
+    def visit_inline_ifexp(self, node):
+        """Visit ifexp that cannot move to a lambda: it assigns, yields or awaits
+        Transform:
+            a if (b := c) else d
+        Into:
+            <now>.operation(<act>, #, <exc>)(
+                <act>, #, |a| if |(b := c)| else |d|
+            )
+        """
+        new_node = copy(node)
+        node.name = pyposast.extract_code(self.rewriter.lcode, node)
+        id_ = self.rewriter.create_code_component(node, Component.IFEXP, 'r')
+        self.create_composition(id_, *self.composition_edge)
+
+        self.composition_edge = (id_, Component.S_TEST)
+        new_node.test = self.rewriter.capture(node.test, mode=Dependency.USE)
+        self.composition_edge = (id_, Component.S_BODY)
+        new_node.body = self.rewriter.capture(node.body, mode=Dependency.USE)
+        self.composition_edge = (id_, Component.S_ORELSE)
+        new_node.orelse = self.rewriter.capture(node.orelse, mode=Dependency.USE)
+
+        return ast_copy(double_noworkflow(
+            'operation',
+            [
+                activation(),
+                ast.Num(id_),
+                ast.Num(self.rewriter.current_exc_handler)
+            ], [
+                activation(),
+                ast.Num(id_),
+                new_node,
+                ast.Str(self.mode)
+            ]
+        ), node)
+
     def visit_Dict(self, node):
         """Visit Dict.
         Transform:
@@ -460,6 +519,32 @@ class RewriteDependencies(ast.NodeTransformer):
         new_node.ifs = ifs
         return new_node
 
+    def visit_native_comprehension(self, node, type_):
+        """Visit comprehension that cannot be captured element by element
+        Transform:
+            [x async for x in l]
+        Into:
+            <now>.operation(<act>, #, <exc>)(
+                <act>, #, [x async for x in l], <mode>
+            )
+        """
+        node.name = pyposast.extract_code(self.rewriter.lcode, node)
+        component_id = self.rewriter.create_code_component(node, type_, 'r')
+        self.create_composition(component_id, *self.composition_edge)
+        return ast_copy(double_noworkflow(
+            'operation',
+            [
+                activation(),
+                ast.Num(component_id),
+                ast.Num(self.rewriter.current_exc_handler)
+            ], [
+                activation(),
+                ast.Num(component_id),
+                node,
+                ast.Str(self.mode)
+            ]
+        ), node)
+
     def visit_ListComp(self, node, comp='list', set_key=None, result=None, generator=None):
         """Visit ListComp
         Transform:
@@ -482,6 +567,8 @@ class RewriteDependencies(ast.NodeTransformer):
                 if <now>.rcondition(<act>, <exc>, 2, <gen>)(<act>, |w|, <gen>)
             ], <mode>)
         """
+        if is_async_comprehension(node):
+            return self.visit_native_comprehension(node, comp + 'comp')
 
         node.name = pyposast.extract_code(self.rewriter.lcode, node)
         list_code_component = self.rewriter.create_code_component(
@@ -567,6 +654,10 @@ class RewriteDependencies(ast.NodeTransformer):
                 if <now>.rcondition(<act>, <exc>, 1, None)(<act>, |y|, None)
             }, <mode>)
         """
+        if is_async_comprehension(node):
+            return self.visit_native_comprehension(
+                node, Component.DICTCOMP
+            )
         node.name = pyposast.extract_code(self.rewriter.lcode, node)
         list_code_component = self.rewriter.create_code_component(
             node, Component.DICTCOMP, 'r'
@@ -620,6 +711,10 @@ class RewriteDependencies(ast.NodeTransformer):
                 if <now>.rcondition(<act>, <exc>, 1, <gen>)(<act>, |y| and |z|, <gen>)
             )), <mode>)
         """
+        if needs_own_scope(node):
+            # It cannot move to a lambda
+            return self.visit_native_comprehension(node, 'genexpcomp')
+
         def result(new_node, code_id):
             """Return output"""
             lambda_node = nlambda(body=new_node)
-- 
2.43.0


From 3c792fa3c08ec0e1a6931b7d6664fb5b55aee4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 26/95] fix: record operator methods that call themselves

---
 .../noworkflow/now/collection/prov_execution/collector.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 84a46aa..04e5c3d 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1400,7 +1400,10 @@ class Collector(object):
                 """
                 activation = self.last_activation
                 names = (function_def.__name__, new_function_def.__name__)
-                if activation.active and activation.name not in names: # White box after black box call
+                if activation.active and (
+                        activation.name not in names or
+                        activation.code_block_id != -1
+                ): # White box after black box call
                     is_augassign = function_def.__name__ in {
                         '__iadd__', '__isub__', '__imul__', '__imatmul__', '__itruediv__', 
                         '__ifloordiv__', '__imod__', '__ipow__', '__ilshift__', '__irshift__', 
-- 
2.43.0


From ec55f6cd2a4e15f1daa509d3b1d5131117cf58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:05 +0000
Subject: [PATCH 27/95] fix: calls and subscripts beyond the capture depth,
 negative keys, calls whose arguments raise

---
 .../collection/prov_execution/collector.py    | 41 ++++++++++++++-----
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 04e5c3d..ae4587b 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -15,7 +15,7 @@ import inspect
 from collections import OrderedDict
 from copy import copy
 from datetime import datetime, timedelta
-from functools import wraps
+from functools import partial, wraps
 import types
 from types import GeneratorType
 
@@ -80,6 +80,17 @@ OPEN_MODES = {
 }
 
 
+def positive_index(container, index):
+    """Convert negative indexes of sequences to the positive ones"""
+    if isinstance(index, int) and index < 0:
+        if isinstance(container, dict):
+            return index
+        length = getattr(type(container), "__len__", None)
+        if length is not None and not isinstance(length, types.FunctionType):
+            return length(container) + index
+    return index
+
+
 class Collector(object):
     """Collector called by the transformed AST. __noworkflow__ object"""
     # pylint: disable=too-many-instance-attributes
@@ -299,12 +310,11 @@ class Collector(object):
             if value_dep is not None:
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
+                nvindex = positive_index(vcontainer, vindex)
                 addr = "[{}]".format(nvindex)
                 value = vcontainer[vindex]
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     collection = value_dep.evaluation
@@ -314,6 +324,7 @@ class Collector(object):
                 addr = ".{}".format(vindex)
                 value = getattr(vcontainer, vindex)
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     self.full_member_lookup(
@@ -388,9 +399,7 @@ class Collector(object):
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
 
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
+                nvindex = positive_index(vcontainer, vindex)
                 addr = "[{}]".format(nvindex)
                 vcontainer[vindex] = value
             elif access == ".":
@@ -1235,7 +1244,7 @@ class Collector(object):
         self.future_activation.append(future)
 
         activation.dependencies.append(depa)
-        return self._call
+        return partial(self._call, future)
 
     def call_in_frame(self, frame, func, args, kwargs):
         """Call builtin function that depends on the frame of its caller"""
@@ -1273,9 +1282,14 @@ class Collector(object):
                 key for key in scope if not key.startswith("__now_"))
         return scope  # locals and vars
 
-    def _call(self, *args, **kwargs):
-        """Capture call activation"""        
-        future = self.future_activation.pop()
+    def _call(*args, **kwargs):
+        """Capture call activation"""
+        # pylint: disable=no-method-argument, protected-access
+        self, future = args[:2]
+        args = args[2:]
+        if future in self.future_activation:
+            # Also remove calls that failed before they started
+            del self.future_activation[self.future_activation.index(future):]
         parent_activation = future.activation
         parent_depa = parent_activation.dependencies.pop()
         if future.activation.active:
@@ -1463,6 +1477,11 @@ class Collector(object):
                     if is_augassign:
                         activation.dependencies.pop()
                     return result
+                if not activation.active and activation.code_block_id != -1:
+                    # Do not share the activation of the caller
+                    return self.call(
+                        activation, block_id, defaults.exc_handler, new_function_def, 'internal'
+                    )(*args, **kwargs)
 
                 if closure_activation != activation:
                     activation.closure = closure_activation
-- 
2.43.0


From 86341e32b3cffd20098c3331167f18d6d29996f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 28/95] fix: hide the parameters added by noWorkflow from
 function signatures

---
 .../now/collection/prov_execution/collector.py      | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index ae4587b..a4a1361 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1530,9 +1530,22 @@ class Collector(object):
                     closure_activation, block_id, new_function_def, mode
                 )
             new_function_def.code_block_id = block_id
+            self.hide_parameters(function_def, new_function_def)
             return new_function_def
         return dec
 
+    def hide_parameters(self, function_def, new_function_def):
+        """Hide the parameters added by noWorkflow from the signature"""
+        # pylint: disable=no-self-use
+        try:
+            signature = inspect.signature(function_def)
+        except (AttributeError, TypeError, ValueError):
+            return  # Python 2 or object without signature
+        new_function_def.__signature__ = signature.replace(parameters=[
+            parameter for name, parameter in signature.parameters.items()
+            if not name.startswith("__now_")
+        ])
+
     def collect_function_def(self, activation, function_name, original_def):
         """Collect function definition after all decorators. Set context"""
         def dec(function_def):
-- 
2.43.0


From fadca32a2bcec2d554f40662ae6a983d10e4625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 29/95] fix: capture the expressions of raise and assert
 statements

---
 .../prov_definition/transformer_stmt.py       | 38 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 1b37dab..9ed24d0 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -1103,7 +1103,14 @@ class RewriteAST(ast.NodeTransformer):
         # ToDo: collect raise
         raise_id = self.create_ast_component(node, Component.RAISE)
         self.create_composition(raise_id, *self.composition_edge)
-        return node
+        new_node = copy(node)
+        for field in ("exc", "cause"):
+            if getattr(node, field, None):
+                self.composition_edge = (raise_id, field)
+                setattr(new_node, field, self.process_used_expression(
+                    raise_id, getattr(node, field)
+                ))
+        return new_node
 
     def visit_Try(self, node):
         """Visit Try
@@ -1249,7 +1256,14 @@ class RewriteAST(ast.NodeTransformer):
         # ToDo: collect assert
         assert_id = self.create_ast_component(node, Component.ASSERT)
         self.create_composition(assert_id, *self.composition_edge)
-        return node
+        new_node = copy(node)
+        for field in ("test", "msg"):
+            if getattr(node, field, None):
+                self.composition_edge = (assert_id, field)
+                setattr(new_node, field, self.process_used_expression(
+                    assert_id, getattr(node, field)
+                ))
+        return new_node
 
     def visit_Import(self, node):
         """Visit Import"""
@@ -1353,6 +1367,26 @@ class RewriteAST(ast.NodeTransformer):
         ), new_node.value)
         return new_node
 
+    def process_used_expression(self, component_id, value):
+        """Capture expression used by a statement
+        Transform:
+            x
+        Into:
+            <now>.expression(<act>, #, <exc>)(<act>, #, |x|)
+        """
+        return ast_copy(double_noworkflow(
+            'expression',
+            [
+                activation(),
+                ast.Num(component_id),
+                ast.Num(self.current_exc_handler),
+            ], [
+                activation(),
+                ast.Num(component_id),
+                self.capture(value),
+            ],
+        ), value)
+
     def visit_Pass(self, node):
         """Visit pass
         Transform:
-- 
2.43.0


From 0fe3eef16980f51f567136bc25be719a7f765214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 30/95] fix: do not record the calls made to represent values

---
 .../now/collection/prov_execution/collector.py     | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index a4a1361..e2d7a59 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -123,6 +123,9 @@ class Collector(object):
         self.first_activation.depth = 0
         self.last_activation = self.first_activation
         self.future_activation = []
+
+        # Calls made to get the representation of values are not captured
+        self.representing = False
         self.shared_types = {}
         # Classes being defined
         self.class_definitions = []
@@ -155,11 +158,14 @@ class Collector(object):
                 repr_fn = original_def
             except AttributeError:
                 pass
+        representing, self.representing = self.representing, True
         try:
             return repr_fn(value)
         except Exception:  # pylint: disable=broad-except
             # __repr__ may fail. e.g., when the object is not initialized
             return object.__repr__(value)
+        finally:
+            self.representing = representing
 
     def as_is(self, value):
         """Return value without any processing"""
@@ -1413,6 +1419,14 @@ class Collector(object):
                 Pass __now_activation__ as parameter
                 """
                 activation = self.last_activation
+                if self.representing and activation.active:
+                    try:
+                        return self.call(
+                            self.dry_activation(activation), block_id,
+                            defaults.exc_handler, new_function_def, 'internal'
+                        )(*args, **kwargs)
+                    finally:
+                        self.last_activation = activation
                 names = (function_def.__name__, new_function_def.__name__)
                 if activation.active and (
                         activation.name not in names or
-- 
2.43.0


From 09cd4f86254cbd310b0c3600f8728759cecb42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 31/95] fix: record parameters with their actual values, once

---
 .../collection/prov_execution/collector.py    | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e2d7a59..5b53361 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1743,19 +1743,11 @@ class Collector(object):
         if function_def.__name__ in {'__setitem__'} and self.current_assign_dep and len(arguments) == 2:
             arguments.append(self.current_assign_dep)
         
+        matches = {}
+
         def match(arg, param):
-            """Create dependency"""
-            arg.mode = "argument"
-            if arg is bound_dependency and new_bind:
-                evaluation = bound_dependency.evaluation
-            else: 
-                depa = DependencyAware()
-                depa.add(arg)
-                evaluation = self.evaluate_depa(
-                    activation, param.code_id, arg.value, time, depa
-                )
-                arg.mode = "argument"
-            activation.context[param.name] = evaluation
+            """Match argument to parameter"""
+            matches.setdefault(param.name, []).append(arg)
 
         # Match args
         for arg in arguments:
@@ -1816,13 +1808,26 @@ class Collector(object):
                 match(param.default, param)
                 new_kwargs[param.name] = param.default.value
 
-        # Missing arguments
+        # Create one evaluation with the actual value of each parameter
         for param in viewvalues(parameters):
-            if param.name not in activation.context:
+            if new_bind and any(
+                    arg is bound_dependency
+                    for arg in matches.get(param.name, [])
+            ):
+                bound_dependency.mode = "argument"
+                evaluation = bound_dependency.evaluation
+            else:
+                args_ = matches.get(param.name, [])
+                depa = DependencyAware() if args_ else None
+                for arg in args_:
+                    arg.mode = "argument"
+                    depa.add(arg)
                 evaluation = self.evaluate_depa(
-                    activation, param.code_id, param.value, time, None
+                    activation, param.code_id, param.value, time, depa
                 )
-                activation.context[param.name] = evaluation
+                for arg in args_:
+                    arg.mode = "argument"
+            activation.context[param.name] = evaluation
 
         return self.as_is
 
-- 
2.43.0


From 5be856b8ae4d873df1115436dc0f8c843cefab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:05 +0000
Subject: [PATCH 32/95] fix: capture assignment expressions

Also record the dependency on a call made in the body of a generator in
the activation of the generator, and not in the one that resumed it.
---
 .../prov_definition/transformer_expr.py       | 33 +++++++++++++++++++
 .../collection/prov_execution/collector.py    | 19 ++++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index d2f59e6..334aaca 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -312,6 +312,39 @@ class RewriteDependencies(ast.NodeTransformer):
         rewriter.container_id = current_container_id
         return result
 
+    def visit_NamedExpr(self, node):
+        """Visit NamedExpr
+        Transform:
+            a := b
+        Into:
+            <now>.named_expr(<act>, #a, <exc>)(<act>, #a, 'a', a := |b|, <mode>)
+        """
+        mode = self.mode
+        target = node.target
+        target.name = target.id
+        component_id = self.rewriter.create_code_component(
+            target, Component.NAME, 'w'
+        )
+        self.create_composition(component_id, *self.composition_edge)
+
+        self.composition_edge = (component_id, Component.S_VALUE)
+        value = self.rewriter.capture(node.value, mode=Dependency.USE)
+
+        return ast_copy(double_noworkflow(
+            'named_expr',
+            [
+                activation(),
+                ast.Num(component_id),
+                ast.Num(self.rewriter.current_exc_handler)
+            ], [
+                activation(),
+                ast.Num(component_id),
+                ast.Str(target.id),
+                ast_copy(ast.NamedExpr(target, value), node),
+                ast.Str(mode)
+            ]
+        ), node)
+
     def visit_IfExp(self, node):
         """Visit ifexp
         Transform:
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 5b53361..33c98a6 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -596,6 +596,23 @@ class Collector(object):
             self.eval_dep(activation, code_id, value, mode, depa)
         return value
 
+    def named_expr(self, activation, code_id, exc_handler):
+        """Capture assignment expression before"""
+        activation.dependencies.append(DependencyAware(
+            exc_handler=exc_handler,
+            code_id=code_id,
+        ))
+        return self._named_expr
+
+    def _named_expr(self, activation, code_id, name, value, mode="dependency"):
+        """Capture assignment expression after"""
+        # pylint: disable=too-many-arguments
+        depa = activation.dependencies.pop()
+        if activation.active:
+            activation.context[name] = self.eval_dep(
+                activation, code_id, value, mode, depa)
+        return value
+
     def expression(self, activation, code_id, exc_handler):
         """Capture expression before"""
         activation.dependencies.append(DependencyAware(
@@ -1345,7 +1362,7 @@ class Collector(object):
 
                 # Just add dependency if it is expecting one
                 dependency = Dependency(eva, result, future.dependency_type)
-                self.last_activation.dependencies[-1].add(dependency)
+                future.activation.dependencies[-1].add(dependency)
                 if activation.generator is not None:
                     activation.generator.evaluation = eva
                     activation.generator.dependency = dependency
-- 
2.43.0


From ce39a8d21b69fcd4fa0c586b721eb7ee3a163f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:22 +0000
Subject: [PATCH 33/95] fix: capture the values of await and yield from
 expressions

---
 .../prov_definition/transformer_expr.py       | 42 +++++++++++++++----
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 334aaca..54626df 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -769,12 +769,41 @@ class RewriteDependencies(ast.NodeTransformer):
             result=result, generator=ast.Name("__now_generator__", L()),
         )
 
+    def _visit_delegation(self, node, type_):
+        """Capture the value of <await x> or <yield from x>
+        Transform:
+            yield from x
+        Into:
+            <now>.yield_(<act>, #y, <exc>)(<act>, #y, yield from |x|, <mode>)
+        """
+        mode = self.mode
+        node.name = pyposast.extract_code(self.rewriter.lcode, node)
+        id_ = self.rewriter.create_code_component(node, type_, 'r')
+        self.create_composition(id_, *self.composition_edge)
+        new_node = copy(node)
+
+        self.composition_edge = (id_, Component.S_VALUE)
+        new_node.value = self.rewriter.capture(
+            new_node.value, mode=Dependency.USE)
+
+        return ast_copy(double_noworkflow(
+            'yield_',
+            [
+                activation(),
+                ast.Num(id_),
+                ast.Num(self.rewriter.current_exc_handler)
+            ],
+            [
+                activation(),
+                ast.Num(id_),
+                new_node,
+                ast.Str(mode)
+            ]
+        ), new_node)
+
     def visit_Await(self, node):
         """Visit Await"""
-        # ToDo: collect await
-        id_ = self.rewriter.create_ast_component(node, Component.AWAIT)
-        self.create_composition(id_, *self.composition_edge)
-        return node
+        return self._visit_delegation(node, Component.AWAIT)
 
     def visit_Yield(self, node):
         """Visit yield
@@ -833,10 +862,7 @@ class RewriteDependencies(ast.NodeTransformer):
 
     def visit_YieldFrom(self, node):
         """Visit YieldFrom"""
-        # ToDo: collect yield from
-        id_ = self.rewriter.create_ast_component(node, Component.YIELD_FROM)
-        self.create_composition(id_, *self.composition_edge)
-        return node
+        return self._visit_delegation(node, Component.YIELD_FROM)
 
     def visit_Compare(self, node):
         """Visit Compare.
-- 
2.43.0


From 1a1da26a5d2ca8b68966198f6b5a462ac2472454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 34/95] fix: keep the generator as the value of its call when
 it returns

---
 .../noworkflow/now/collection/prov_execution/collector.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 33c98a6..11954a3 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1860,8 +1860,10 @@ class Collector(object):
         dependency_aware = activation.dependencies.pop()
         evaluation = activation.evaluation
         reference = self.find_reference_dependency(value, dependency_aware)
-        evaluation.repr = self.get_value(value)
-        evaluation.set_reference(reference)
+        if activation.generator is None:
+            # The value of the call of a generator is the generator
+            evaluation.repr = self.get_value(value)
+            evaluation.set_reference(reference)
         self.make_dependencies(activation, evaluation, dependency_aware)
         return value
 
-- 
2.43.0


From eba6faa36aa0ad87e651f865e41dbb65d4dc7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 35/95] fix: use the same keys for members of dictionaries in
 displays and accesses

Members of displays used repr(key) and accesses used str(key), so items
with string keys were never linked to their members. The key -1 of sets was
taken as the mark of an automatic index.
---
 .../now/collection/prov_execution/collector.py         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 11954a3..d43d11f 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -317,7 +317,7 @@ class Collector(object):
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
             if access == "[]":
                 nvindex = positive_index(vcontainer, vindex)
-                addr = "[{}]".format(nvindex)
+                addr = "[{}]".format(self.get_value(nvindex))
                 value = vcontainer[vindex]
                 if not activation.active:
                     activation.dependencies.pop()
@@ -406,7 +406,7 @@ class Collector(object):
 
             if access == "[]":
                 nvindex = positive_index(vcontainer, vindex)
-                addr = "[{}]".format(nvindex)
+                addr = "[{}]".format(self.get_value(nvindex))
                 vcontainer[vindex] = value
             elif access == ".":
                 setattr(vcontainer, vindex, value)
@@ -696,7 +696,7 @@ class Collector(object):
             evaluation = self.eval_dep(activation, code_id, value, mode, depa)
             same = evaluation.same()
             for key, part, checkpoint in depa.items:
-                tkey = "[{0!r}]".format(key)
+                tkey = "[{}]".format(self.get_value(key))
                 same.members[tkey] = part
                 self.members.add_object(
                     self.trial_id, same.activation_id, same.id,
@@ -800,7 +800,7 @@ class Collector(object):
             dependency.sub_dependencies.extend(depa.dependencies)
             activation.dependencies[-1].add(dependency)
             for key, part, checkpoint in depa.items:
-                tkey = "[{0!r}]".format(key)
+                tkey = "[{}]".format(self.get_value(key))
                 same.members[tkey] = part
                 self.members.add_object(
                     self.trial_id, same.activation_id, same.id,
@@ -838,7 +838,7 @@ class Collector(object):
         value_depa = activation.dependencies.pop()
         if key is None:
             key = value
-        if key == -1:
+        elif key == -1:
             key = len(activation.dependencies[-1].items)
         if activation.active:
             if len(value_depa.dependencies) == 1:
-- 
2.43.0


From 910ee7e30a04ede016c18caf3ce30b3e521a8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 36/95] fix: find variables by name when their position
 includes parentheses

---
 .../now/collection/prov_definition/transformer_expr.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 54626df..e5eda41 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -1349,7 +1349,7 @@ class RewriteDependencies(ast.NodeTransformer):
         node.target_expr = ast.Tuple([
             ast.Tuple([
                 ast.Num(id_),
-                ast.Str(pyposast.extract_code(self.rewriter.lcode, node)),
+                ast.Str(node.id),
                 ast.Name(node.id, L())
             ], L()),
             ast.Str('single')
@@ -1358,7 +1358,7 @@ class RewriteDependencies(ast.NodeTransformer):
             result = ast_copy(noworkflow('name', [
                 activation(), 
                 ast.Num(id_),
-                ast.Str(pyposast.extract_code(self.rewriter.lcode, node)),
+                ast.Str(node.id),
                 node,
                 ast.Str(self.mode)]
             ), node)
-- 
2.43.0


From 8918d206c580518246a936f80bf3863543514306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 37/95] fix: variables declared global or nonlocal, and
 variables of classes, in the lookup of names

---
 .../prov_definition/transformer_stmt.py       | 19 +++++++++-
 .../collection/prov_execution/collector.py    | 37 ++++++++++++++++---
 .../now/persistence/lightweight/activation.py |  7 +++-
 3 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 9ed24d0..ef7046f 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -252,6 +252,9 @@ class RewriteAST(ast.NodeTransformer):
                 self.visit_break(new_body, stmt)
             elif isinstance(stmt, ast.Continue):
                 self.visit_continue(new_body, stmt)
+            elif type(stmt).__name__ in ('Global', 'Nonlocal'):
+                new_body.append(self.visit(stmt))
+                new_body.append(self.declare(stmt))
             else:
                 new_body.append(self.visit(stmt))
             index += 1
@@ -1332,15 +1335,27 @@ class RewriteAST(ast.NodeTransformer):
     def visit_Global(self, node):
         """Visit Global"""
         # pylint: disable=invalid-name
-        # ToDo: collect global
         global_id = self.create_ast_component(node, Component.GLOBAL)
         self.create_composition(global_id, *self.composition_edge)
         return node
 
+    def declare(self, node):
+        """Transform:
+            nonlocal a, b
+        Into:
+            nonlocal a, b
+            <now>.declare(<act>, 'nonlocal', ('a', 'b'))
+        """
+        # pylint: disable=no-self-use
+        return ast_copy(ast.Expr(noworkflow('declare', [
+            activation(),
+            ast.Str(type(node).__name__.lower()),
+            ast.Tuple([ast.Str(name) for name in node.names], L())
+        ])), node)
+
     def visit_Nonlocal(self, node):
         """Visit Nonloca"""
         # pylint: disable=invalid-name
-        # ToDo: collect nonlocal
         nonlocal_id = self.create_ast_component(node, Component.NONLOCAL)
         self.create_composition(nonlocal_id, *self.composition_edge)
         return node
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d43d11f..bbf8bb1 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -523,15 +523,39 @@ class Collector(object):
         # ToDo: relate evaluation to exception
         evaluation = self.evaluate_depa(activation, code_id, value, None)
         if name:
-            activation.context[name] = evaluation
+            self.owner(activation, name).context[name] = evaluation
+
+    def declare(self, activation, kind, names):
+        """Declare names of the activation as global or nonlocal"""
+        # pylint: disable=no-self-use
+        for name in names:
+            activation.declared[name] = kind
+
+    def owner(self, activation, name):
+        """Return the activation whose context has the variable"""
+        # pylint: disable=no-self-use
+        kind = activation.declared.get(name)
+        if kind == "global":
+            while activation.closure:
+                activation = activation.closure
+        elif kind == "nonlocal":
+            owner = activation.closure
+            while owner and (owner.is_class or name not in owner.context):
+                owner = owner.closure
+            activation = owner or activation
+        return activation
 
     def lookup(self, activation, name):
         """Lookup for variable name"""
+        activation = self.owner(activation, name)
         while activation:
             evaluation = activation.context.get(name, None)
             if evaluation:
                 return evaluation
             activation = activation.closure
+            while activation and activation.is_class:
+                # Functions do not see the variables of their classes
+                activation = activation.closure
         evaluation = self.global_evaluations.get(name, None)
         if evaluation:
             return evaluation
@@ -609,7 +633,7 @@ class Collector(object):
         # pylint: disable=too-many-arguments
         depa = activation.dependencies.pop()
         if activation.active:
-            activation.context[name] = self.eval_dep(
+            self.owner(activation, name).context[name] = self.eval_dep(
                 activation, code_id, value, mode, depa)
         return value
 
@@ -1061,7 +1085,7 @@ class Collector(object):
         code_id, name, value = target_info
         eva = self.evaluate_depa(activation, code_id, value, checkpoint, depa)
         if name:
-            activation.context[name] = eva
+            self.owner(activation, name).context[name] = eva
         return 1
 
     def assign_access(self, activation, assign, target_info, depa, back):
@@ -1584,7 +1608,8 @@ class Collector(object):
             dependency_aware = activation.dependencies.pop()
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
-                activation.context[function_name] = dependency.evaluation
+                owner = self.owner(activation, function_name)
+                owner.context[function_name] = dependency.evaluation
             try:
                 function_def.original_def = original_def
             except (AttributeError, TypeError):
@@ -1612,6 +1637,7 @@ class Collector(object):
             last_activation
         )
         activation.closure = last_activation
+        activation.is_class = True
         self.class_definitions[-1].activation = activation
         return activation
 
@@ -1674,7 +1700,8 @@ class Collector(object):
             dependency_aware = activation.dependencies.pop()
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
-                activation.context[class_name] = dependency.evaluation
+                owner = self.owner(activation, class_name)
+                owner.context[class_name] = dependency.evaluation
                 self.shared_types[class_def] = dependency.evaluation
             return class_def
         return dec
diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index 8fe6c61..353cafd 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -49,7 +49,8 @@ class ActivationLW(BaseLW):
         ["file_accesses", "context", "conditions", "permanent_conditions",
          "evaluation", "assignments", "closure", "func",
          "active", "depth", "parent", "generator", "last_activation", 
-         "bound_dependency", "func_evaluation", "iscell"]
+         "bound_dependency", "func_evaluation", "iscell",
+         "declared", "is_class"]
     )
     nullable = {"code_block_id"}
     model = Activation
@@ -73,6 +74,10 @@ class ActivationLW(BaseLW):
 
         # Variable context. Used in the slicing lookup
         self.context = {}
+        # Names declared as global or nonlocal
+        self.declared = {}
+        # Body of a class
+        self.is_class = False
         # Closure activation
         self.closure = None
         # Parent activation
-- 
2.43.0


From f6c9917426dbc421e3b8396c34a2595e29388fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 38/95] fix: do not record members of activations that are not
 recorded

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index bbf8bb1..1fd36a4 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -473,7 +473,8 @@ class Collector(object):
         evaluation.checkpoint = self.time()
         evaluation.repr = self.get_value(value)
         evaluation.set_reference(reference)
-        self.add_type(evaluation, value)
+        if evaluation.id != -1:  # dry activations are not recorded
+            self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
         for file_access in activation.file_accesses:
             file_access.content_hash_after = self.file_content_hash(
-- 
2.43.0


From c2bd247fe039f0011ad72f338346390f67e4e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 39/95] fix: write content of the plain engine atomically;
 accept puts without filename

---
 .../now/persistence/content/base.py           |  6 +++-
 .../now/persistence/content/plain_engine.py   | 30 +++++++++++++++----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/base.py b/capture/noworkflow/now/persistence/content/base.py
index a14a8ce..4dbdede 100644
--- a/capture/noworkflow/now/persistence/content/base.py
+++ b/capture/noworkflow/now/persistence/content/base.py
@@ -56,7 +56,11 @@ class ContentDatabaseEngine(object):
         """Find hash in database"""
         raise NotImplementedError("Implement in subclass")
 
-    def gc(self, content_hash):
+    def list_all(self):
+        """List the hashes of all contents"""
+        raise NotImplementedError("Implement in subclass")
+
+    def gc(self, aggressive=False):
         """Collect garbage from database"""
         raise NotImplementedError("Implement in subclass")
 
diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index a7e0143..692c2ed 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -1,5 +1,6 @@
 import hashlib
 import os
+import threading
 from os.path import join, isdir, isfile
 
 from .base import ContentDatabaseEngine
@@ -27,19 +28,28 @@ class PlainEngine(ContentDatabaseEngine):
         """Perform put operation. This is used in the distributed wrapper"""
         content_hash = hashlib.sha1(content).hexdigest()
         content_dirname = join(content_path, content_hash[:2])
-        if not isdir(content_dirname):
-            os.makedirs(content_dirname)
+        os.makedirs(content_dirname, exist_ok=True)
         content_filename = join(content_dirname, content_hash[2:])
         if not isfile(content_filename):
-            with safeopen.std_open(content_filename, "wb") as content_file:
-                content_file.write(content)
+            # The content only gets its name after being completely written
+            temp_filename = "{}-{}-{}.tmp".format(
+                content_path, os.getpid(), threading.current_thread().ident
+            )
+            try:
+                with safeopen.std_open(temp_filename, "wb") as content_file:
+                    content_file.write(content)
+                os.replace(temp_filename, content_filename)
+            except BaseException:
+                if isfile(temp_filename):
+                    os.unlink(temp_filename)
+                raise
         return content_hash
 
     def put_attr(self, content, filename):
         """Return attributes for the do_put operation"""
         return (self.content_path, content)
 
-    def put(self, content, filename):  # pylint: disable=method-hidden
+    def put(self, content, filename="generic"):  # pylint: disable=method-hidden
         """Put content in the content database"""
         return self.do_put(*self.put_attr(content, filename))
 
@@ -64,7 +74,15 @@ class PlainEngine(ContentDatabaseEngine):
                     return content_dirname + name
         return None
 
-    def gc(self, content_hash):
+    def list_all(self):
+        """List the hashes of all contents"""
+        return [
+            os.path.basename(dirname) + name
+            for dirname, _, filenames in os.walk(self.content_path)
+            for name in filenames
+        ]
+
+    def gc(self, aggressive=False):
         """Do nothing for plain storage"""
         pass
 
-- 
2.43.0


From 5040c329200a330070d15fd046128a3d655bffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 40/95] fix: names that git does not accept and name collisions
 in content commits

---
 .../now/persistence/content/gitbase.py        | 45 +++++++++++++++----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index eb224d0..70d1dd3 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -19,6 +19,7 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self._commit_ref = 'refs/heads/master'
         self._initial_message = "Initial Commit"
         self.name_counter = Counter()
+        self.used_names = set()
         self.base_path = None
         self.user_path = os.path.expanduser("~")
         self._max_filename_size = 4096
@@ -37,9 +38,15 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self.close()
         trees = {'': self.new_tree('')}
 
-        for key, value in self.object_hashes.items():
+        blobs = [
+            (self._get_tree(trees, key), key, value)
+            for key, value in self.object_hashes.items()
+        ]
+        for tree, key, value in blobs:
             basename = os.path.basename(key)
-            self.insert_blob(self._get_tree(trees, key), basename, value)
+            if key in trees:  # the name is also used by a directory
+                basename += " - file"
+            self.insert_blob(tree, basename, value)
 
         tree_hashes = {}
         tree_keys = sorted(list(trees.keys()), key=len, reverse=True)
@@ -55,24 +62,44 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
     def _increment(self, filename):
         """Increment filename to avoid collisions"""
         filename = filename.strip()
-        self.name_counter[filename] += 1
-        count = self.name_counter[filename] 
-        if count == 1:
-            return filename
-        return "{} - v{}".format(filename, count)
+        result = None
+        while result is None or result in self.used_names:
+            self.name_counter[filename] += 1
+            count = self.name_counter[filename]
+            result = filename
+            if count != 1:
+                result = "{} - v{}".format(filename, count)
+        self.used_names.add(result)
+        return result
+
+    @staticmethod
+    def _is_inside(filename, path):
+        """Check if filename is inside path"""
+        return filename.startswith(os.path.join(path, ""))
+
+    @staticmethod
+    def _valid_name(filename):
+        """Replace parts of the name that git does not accept in trees"""
+        filename = filename.encode("utf-8", "backslashreplace").decode("utf-8")
+        return os.path.join(*[
+            "noworkflow_" + part
+            if part.lower() in (".git", "git~1", "..", ".", "") else part
+            for part in filename.split(os.sep)
+        ])
 
     def _inc_name(self, filename):
         """Define name for file in repository"""
         filename = os.path.abspath(filename)
-        if filename.startswith(self.base_path):
+        if self._is_inside(filename, self.base_path):
             filename = os.path.relpath(filename, self.base_path)
-        elif filename.startswith(self.user_path):
+        elif self._is_inside(filename, self.user_path):
             filename = os.path.join("noworkflow_home", os.path.relpath(filename, self.user_path))
         else:
             drive, rest = os.path.splitdrive(filename)
             if rest.startswith("/"):
                 rest = rest[1:]
             filename = os.path.join("noworkflow_root", drive, rest)
+        filename = self._valid_name(filename)
         result = self._increment(filename)
         if len(result) > self._max_filename_size:
             filename = os.path.join("noworkflow_long", os.path.basename(filename))
-- 
2.43.0


From 014f61f66a3e3ec7dec61951fd7b7e6bea968786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 41/95] fix: read raw bytes and find by prefix in all git
 engines

---
 .../now/persistence/content/dulwich_engine.py | 22 ++++++++++++++-----
 .../now/persistence/content/git_system.py     | 14 +++++++-----
 .../now/persistence/content/puregit_engine.py | 18 +++++++--------
 .../now/persistence/content/pygit_engine.py   | 13 ++++++++---
 4 files changed, 43 insertions(+), 24 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index fe13a10..94deda7 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -9,7 +9,7 @@ from dulwich.objects import Tree
 from dulwich.objects import Blob
 from dulwich.objects import Commit
 from dulwich.objects import parse_timezone
-from dulwich.objectspec import scan_for_short_id
+from dulwich.objectspec import scan_for_short_id, AmbiguousShortId
 
 from .gitbase import GitContentDatabaseEngine
 from .parallel import create_distributed, create_pool, create_threading, NullLock
@@ -60,19 +60,29 @@ class DulwichEngine(GitContentDatabaseEngine):
         with self.use_safe_open():
             return_data = self.repo.__getitem__(
                 content_hash.encode()
-            ).as_pretty_string()
+            ).as_raw_string()
             return return_data
 
     def find_subhash(self, content_hash):
         """Find hash in git"""
         try:
-            content_hash = content_hash.encode("utf-8")
-            result = scan_for_short_id(self.repo.object_store, content_hash)
-            if result:
+            with self.use_safe_open():
+                content_hash = content_hash.encode("utf-8")
+                result = scan_for_short_id(
+                    self.repo.object_store, content_hash, Blob)
                 return result.id.decode("utf-8")
-        except KeyError:
+        except (KeyError, ValueError, AmbiguousShortId):
             return None
 
+    def list_all(self):
+        """List the hashes of all contents"""
+        with self.use_safe_open():
+            object_store = self.repo.object_store
+            return [
+                sha.decode("ascii") for sha in object_store
+                if isinstance(object_store[sha], Blob)
+            ]
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         with self.use_safe_open():
diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index 3d93ed7..9417d60 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -85,10 +85,10 @@ def commit_tree(tree_hash, commit_message, git_path, author=None, parent=None):
 
 
 def garbage_collection(git_path, aggressive=False):
-    cmd = ["git gc", "--quiet"]
+    cmd = ["git", "gc", "--quiet"]
     if aggressive:
         cmd.append("--aggressive")
-    execute(cmd, cwd=git_path, shell=True)
+    execute(cmd, cwd=git_path)
 
 
 def count_loose_objects(git_path):
@@ -97,11 +97,13 @@ def count_loose_objects(git_path):
 
 
 def all_objects(git_path):
-    cmd = ["git", "rev-list", "--objects", "--all"]
+    """List the hashes of all blobs"""
+    cmd = ["git", "cat-file", "--batch-check", "--batch-all-objects"]
     out = execute(cmd, cwd=git_path)
-    if out:
-        return [x.strip() for x in out.split() if x.strip()]
-    return []
+    return [
+        line.split()[0] for line in out.splitlines()
+        if line.split()[1:2] == [b"blob"]
+    ]
 
 
 def show_ref(ref, git_path):
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index d11b414..35852b6 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -41,21 +41,21 @@ class PureGitEngine(GitContentDatabaseEngine):
         """Get content from the content database"""
         return git_system.get(content_hash, self.content_path)
  
-    def gc(self):
-        git_system.garbage_collection(self.content_path)
-
     def find_subhash(self, content_hash):
         """Find hash in database"""
         bytes_content_hash = content_hash.encode("utf-8")
-        print(bytes_content_hash)
-        objects = git_system.all_objects(self.content_path)
-        print(objects)
-        for obj in objects:
-            print(obj)
+        for obj in git_system.all_objects(self.content_path):
             if obj.startswith(bytes_content_hash):
-                return obj
+                return obj.decode("utf-8")
         return None
 
+    def list_all(self):
+        """List the hashes of all contents"""
+        return [
+            obj.decode("utf-8")
+            for obj in git_system.all_objects(self.content_path)
+        ]
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         tree = git_system.write_tree(self.content_path)
diff --git a/capture/noworkflow/now/persistence/content/pygit_engine.py b/capture/noworkflow/now/persistence/content/pygit_engine.py
index e2a0671..385af9e 100644
--- a/capture/noworkflow/now/persistence/content/pygit_engine.py
+++ b/capture/noworkflow/now/persistence/content/pygit_engine.py
@@ -11,7 +11,7 @@ from collections import defaultdict
 
 from pygit2 import init_repository
 from pygit2 import Repository
-from pygit2 import GIT_FILEMODE_BLOB, GIT_FILEMODE_TREE
+from pygit2 import GIT_FILEMODE_BLOB, GIT_FILEMODE_TREE, Blob
 from pygit2 import Signature
 
 from .gitbase import GitContentDatabaseEngine
@@ -58,11 +58,18 @@ class PyGitEngine(GitContentDatabaseEngine):
     def find_subhash(self, content_hash):
         """Find hash in git"""
         try:
-            blob = self.repo.revparse_single(content_hash)
+            blob = self.repo[content_hash]
             return str(blob.id)
-        except KeyError:
+        except (KeyError, ValueError):
             return None
 
+    def list_all(self):
+        """List the hashes of all contents"""
+        return [
+            str(oid) for oid in self.repo
+            if isinstance(self.repo[oid], Blob)
+        ]
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         empty_tree = self.repo.TreeBuilder().write()
-- 
2.43.0


From 41b24ede7f958f5e6fc88e591458544ab3b7ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 42/95] fix: wait for content workers before reading; do not
 hang when they fail

---
 .../now/persistence/content/parallel.py       | 66 ++++++++++++++++---
 .../now/persistence/content_database.py       |  8 +--
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index 61b1579..d0f2e61 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -4,6 +4,32 @@
 # Please, consult the license terms in the LICENSE file.
 """Content database engine parallel generics"""
 
+import traceback
+
+
+class WaitForContents(object):
+    """Wait for the contents that are being stored before accessing them"""
+
+    def flush(self):
+        """Wait until all contents are stored"""
+        raise NotImplementedError("Implement in subclass")
+
+    def get(self, content_hash):  # pylint: disable=method-hidden
+        """Get content from the content database"""
+        self.flush()
+        return super(WaitForContents, self).get(content_hash)
+
+    def find_subhash(self, content_hash):
+        """Find hash in database"""
+        self.flush()
+        return super(WaitForContents, self).find_subhash(content_hash)
+
+    def list_all(self):
+        """List the hashes of all contents"""
+        self.flush()
+        return super(WaitForContents, self).list_all()
+
+
 def create_distributed(cls, name=None):
     from multiprocessing import Process, JoinableQueue, cpu_count, Manager, Lock
     from . import safeopen
@@ -24,11 +50,15 @@ def create_distributed(cls, name=None):
                     self.task_queue.task_done()
                     break
 
-                self.engine.do_put(*queue_content)
-                self.task_queue.task_done()
+                try:
+                    self.engine.do_put(*queue_content)
+                except Exception:  # pylint: disable=broad-except
+                    traceback.print_exc()
+                finally:
+                    self.task_queue.task_done()
 
 
-    class Distributed(cls):
+    class Distributed(WaitForContents, cls):
 
         def __init__(self, config):
             super(Distributed, self).__init__(config)
@@ -62,6 +92,11 @@ def create_distributed(cls, name=None):
             content_hash = self._get_hash_from_content(content)
             return content_hash
 
+        def flush(self):
+            """Wait until all contents are stored"""
+            if self.processes_started:
+                self.tasks.join()
+
         def close(self):
             """Join and close processes"""
             if self.processes_started:
@@ -81,11 +116,12 @@ def create_pool(cls, name=None):
     from multiprocessing import cpu_count, Manager, Pool, Lock
     from . import safeopen
 
-    class ProcessingPool(cls):
+    class ProcessingPool(WaitForContents, cls):
 
         def __init__(self, config):
             super(ProcessingPool, self).__init__(config)
             self.pool = None
+            self.results = []
             self.manager = Manager()
             self.object_hashes = self.manager.dict()
             self.processes_started = False
@@ -103,10 +139,18 @@ def create_pool(cls, name=None):
             if not self.processes_started:
                 self.start_processes()
 
-            self.pool.apply_async(self.do_put, self.put_attr(content, filename))
+            self.results.append(self.pool.apply_async(
+                self.do_put, self.put_attr(content, filename)
+            ))
             content_hash = self._get_hash_from_content(content)
             return content_hash
 
+        def flush(self):
+            """Wait until all contents are stored"""
+            for result in self.results:
+                result.wait()
+            self.results = []
+
         def close(self):
             """Join and close processes"""
             if self.processes_started:
@@ -121,7 +165,7 @@ def create_pool(cls, name=None):
 def create_threading(cls, name=None):
     import threading
     import sys
-    class Threading(cls):
+    class Threading(WaitForContents, cls):
 
         def __init__(self, config):
             super(Threading, self).__init__(config)
@@ -136,13 +180,17 @@ def create_threading(cls, name=None):
             content_hash = self._get_hash_from_content(content)
             return content_hash
 
-        def close(self):
-            """Join and close threads"""
+        def flush(self):
+            """Wait until all contents are stored"""
             for t in self.persistence_threads:
                 t.join()
-            
+
             self.persistence_threads = []
 
+        def close(self):
+            """Join and close threads"""
+            self.flush()
+
     Threading.__name__ = name or ("Threading" + cls.__name__)
     return Threading
         
diff --git a/capture/noworkflow/now/persistence/content_database.py b/capture/noworkflow/now/persistence/content_database.py
index 4a61b37..d5d206e 100644
--- a/capture/noworkflow/now/persistence/content_database.py
+++ b/capture/noworkflow/now/persistence/content_database.py
@@ -84,10 +84,4 @@ class ContentDatabase(object):
         self.content_database_engine.connect(config)
     
     def listAll(self):
-        files = []
-        for r,d, f in os.walk(self.__getattr__("content_path")):
-            for file in f:
-                fileName=os.path.basename(r)
-                fileName+=file
-                files.append(fileName)
-        return files
+        return self.content_database_engine.list_all()
-- 
2.43.0


From 83f7c0f6c962593bc59eaa2bd70f9e1b594f9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:51 +0000
Subject: [PATCH 43/95] fix: list contents once when they are both loose and
 packed

---
 capture/noworkflow/now/persistence/content/dulwich_engine.py | 4 ++--
 capture/noworkflow/now/persistence/content/pygit_engine.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 94deda7..26d7592 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -78,10 +78,10 @@ class DulwichEngine(GitContentDatabaseEngine):
         """List the hashes of all contents"""
         with self.use_safe_open():
             object_store = self.repo.object_store
-            return [
+            return sorted({
                 sha.decode("ascii") for sha in object_store
                 if isinstance(object_store[sha], Blob)
-            ]
+            })
 
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
diff --git a/capture/noworkflow/now/persistence/content/pygit_engine.py b/capture/noworkflow/now/persistence/content/pygit_engine.py
index 385af9e..4b199c5 100644
--- a/capture/noworkflow/now/persistence/content/pygit_engine.py
+++ b/capture/noworkflow/now/persistence/content/pygit_engine.py
@@ -65,10 +65,10 @@ class PyGitEngine(GitContentDatabaseEngine):
 
     def list_all(self):
         """List the hashes of all contents"""
-        return [
+        return sorted({
             str(oid) for oid in self.repo
             if isinstance(self.repo[oid], Blob)
-        ]
+        })
 
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
-- 
2.43.0


From 5ed2ba93587df378f6fc980eeea38f71f4666707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 44/95] fix: keep references to the contents stored before
 closing the content workers

---
 capture/noworkflow/now/persistence/content/parallel.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index d0f2e61..a5ef850 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -73,7 +73,6 @@ def create_distributed(cls, name=None):
         def start_processes(self):
             """Start processes"""
             self.tasks = JoinableQueue()
-            self.object_hashes = self.manager.dict()
             self.num_consumers = cpu_count()
             self.processes_started = True
             self.consumers = []
@@ -130,7 +129,6 @@ def create_pool(cls, name=None):
         def start_processes(self):
             """Start processes"""
             with safeopen.use_safe_open():
-                self.object_hashes = self.manager.dict()
                 self.pool = Pool(cpu_count())
                 self.processes_started = True
 
-- 
2.43.0


From f63661ae50687be59867b27ecfcf6ac84e4ab8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 45/95] fix: concurrent storage of the same content and garbage
 collection with dulwich

---
 .../now/persistence/content/dulwich_engine.py     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 26d7592..655af96 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -40,7 +40,15 @@ class DulwichEngine(GitContentDatabaseEngine):
             object_store = Repo(content_path).object_store
             blob = Blob.from_string(content)
             with lock:
-                object_store.add_object(blob)
+                for attempt in range(100, -1, -1):
+                    try:
+                        object_store.add_object(blob)
+                        break
+                    except file.FileLocked:
+                        # Other process is storing the same content
+                        if not attempt:
+                            raise
+                        time.sleep(0.05)
             result = object_hashes[filename] = blob.id.decode("ascii")
             return result
 
@@ -74,6 +82,11 @@ class DulwichEngine(GitContentDatabaseEngine):
         except (KeyError, ValueError, AmbiguousShortId):
             return None
 
+    def gc(self, aggressive=False):
+        """Collect garbage and forget the packs that it replaced"""
+        super(DulwichEngine, self).gc(aggressive)
+        self.repo = Repo(self.content_path)
+
     def list_all(self):
         """List the hashes of all contents"""
         with self.use_safe_open():
-- 
2.43.0


From 65db6facb6334f20d9791ef9cfebe1c6105b609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 46/95] fix: start content workers once, when threads store
 contents at the same time

---
 .../now/persistence/content/parallel.py       | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index a5ef850..6d1a323 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -4,6 +4,7 @@
 # Please, consult the license terms in the LICENSE file.
 """Content database engine parallel generics"""
 
+import threading
 import traceback
 
 
@@ -29,6 +30,11 @@ class WaitForContents(object):
         self.flush()
         return super(WaitForContents, self).list_all()
 
+    def gc(self, aggressive=False):
+        """Collect garbage"""
+        self.flush()
+        super(WaitForContents, self).gc(aggressive)
+
 
 def create_distributed(cls, name=None):
     from multiprocessing import Process, JoinableQueue, cpu_count, Manager, Lock
@@ -66,6 +72,7 @@ def create_distributed(cls, name=None):
             self.consumers = []
             self.num_consumers = None
             self.processes_started = False
+            self.start_lock = threading.Lock()
             self.manager = Manager()
             self.object_hashes = self.manager.dict()
             self.lock = self.manager.RLock()
@@ -84,8 +91,9 @@ def create_distributed(cls, name=None):
 
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
-            if not self.processes_started:
-                self.start_processes()
+            with self.start_lock:
+                if not self.processes_started:
+                    self.start_processes()
 
             self.tasks.put(self.put_attr(content, filename))
             content_hash = self._get_hash_from_content(content)
@@ -124,6 +132,7 @@ def create_pool(cls, name=None):
             self.manager = Manager()
             self.object_hashes = self.manager.dict()
             self.processes_started = False
+            self.start_lock = threading.Lock()
             self.lock = self.manager.RLock()
 
         def start_processes(self):
@@ -134,8 +143,9 @@ def create_pool(cls, name=None):
 
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
-            if not self.processes_started:
-                self.start_processes()
+            with self.start_lock:
+                if not self.processes_started:
+                    self.start_processes()
 
             self.results.append(self.pool.apply_async(
                 self.do_put, self.put_attr(content, filename)
@@ -145,9 +155,8 @@ def create_pool(cls, name=None):
 
         def flush(self):
             """Wait until all contents are stored"""
-            for result in self.results:
-                result.wait()
-            self.results = []
+            while self.results:
+                self.results.pop().wait()
 
         def close(self):
             """Join and close processes"""
@@ -173,17 +182,15 @@ def create_threading(cls, name=None):
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
             t = threading.Thread(target=self.do_put, args=self.put_attr(content, filename))
-            self.persistence_threads.append(t)
             t.start()
+            self.persistence_threads.append(t)
             content_hash = self._get_hash_from_content(content)
             return content_hash
 
         def flush(self):
             """Wait until all contents are stored"""
-            for t in self.persistence_threads:
-                t.join()
-
-            self.persistence_threads = []
+            while self.persistence_threads:
+                self.persistence_threads.pop().join()
 
         def close(self):
             """Join and close threads"""
-- 
2.43.0


From 575fb7b2d0bcec2435dcd51654bea28aefab923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 47/95] fix: save partial provenance with the frequency of the
 -s option

---
 .../now/collection/prov_execution/collector.py         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 1fd36a4..6554795 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -111,9 +111,6 @@ class Collector(object):
 
         self.exceptions = self.metascript.exceptions_store
         # Partial save
-        self.partial_save_frequency = None
-        if metascript.save_frequency:  # milliseconds
-            self.partial_save_frequency = metascript.save_frequency / 1000.0
         self.last_partial_save = self.get_time()
 
         self.first_activation = self.activations.dry_add(
@@ -420,6 +417,13 @@ class Collector(object):
                 )
                 activation.assignments[-1].accesses[code_id] = aaccess
 
+    @property
+    def partial_save_frequency(self):
+        """Return frequency of partial saves in seconds"""
+        if self.metascript.save_frequency:  # milliseconds
+            return self.metascript.save_frequency / 1000.0
+        return None
+
     def time(self):
         """Return time at this moment
         Also check whether or not it should invoke time related methods
-- 
2.43.0


From 9d8123b6e739a4d1f4a2cd3a730b9c7a31d51513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 48/95] fix: start of the interval between partial saves

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 6554795..ce8036e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -111,7 +111,7 @@ class Collector(object):
 
         self.exceptions = self.metascript.exceptions_store
         # Partial save
-        self.last_partial_save = self.get_time()
+        self.last_partial_save = 0  # time since the start of the trial
 
         self.first_activation = self.activations.dry_add(
             self.evaluations.dry_add(self.trial_id, -1, -1, None, None),
-- 
2.43.0


From 9a5db721e47f324746f058bb875ff395d493a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:59 +0000
Subject: [PATCH 49/95] fix: store the bytes of script and module files,
 whatever their encoding

---
 .../now/collection/prov_definition/definition.py         | 9 ++++++---
 capture/noworkflow/now/ipython/magics/now_restore.py     | 4 +++-
 capture/noworkflow/now/models/code_display.py            | 8 +++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/definition.py b/capture/noworkflow/now/collection/prov_definition/definition.py
index 98946d1..b301630 100644
--- a/capture/noworkflow/now/collection/prov_definition/definition.py
+++ b/capture/noworkflow/now/collection/prov_definition/definition.py
@@ -48,13 +48,14 @@ class Definition(object):
     def create_code_block(self, code, path, type_, binary, load):
         """Create code block for script/module"""
         # pylint: disable=too-many-arguments
+        raw = None
         if load:
             try:
                 with content.std_open(path, "rb") as script_file:
-                    code = script_file.read()
+                    code = raw = script_file.read()
                     if not binary:
                         code = pyposast.native_decode_source(code)
-            except UnicodeError:
+            except (UnicodeError, LookupError, SyntaxError):
                 # Failed to open file, use existing code
                 binary = True
                 print_msg("Failed to decode file {}. Using binary."
@@ -80,8 +81,10 @@ class Definition(object):
             "w",
             1, 0, len(lines), len(lines[-1]), -1
         )
+        # Keep the bytes of the file: its encoding may not be utf-8
+        code_hash = None if raw is None else content.put(raw, path)
         self.metascript.code_blocks_store.add(
-            id_, self.metascript.trial_id, code, binary, None, path
+            id_, self.metascript.trial_id, code, binary, None, path, code_hash
         )
         return code, id_
 
diff --git a/capture/noworkflow/now/ipython/magics/now_restore.py b/capture/noworkflow/now/ipython/magics/now_restore.py
index 8c85ccb..76186d2 100644
--- a/capture/noworkflow/now/ipython/magics/now_restore.py
+++ b/capture/noworkflow/now/ipython/magics/now_restore.py
@@ -6,6 +6,8 @@
 from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
+from pyposast import native_decode_source
+
 from ...cmd import Restore
 from ...persistence import content
 
@@ -46,4 +48,4 @@ class NowRestore(IpythonCommandMagic, Restore):
         _, args = self.arguments(func, line)
         self.args_file, self.trial = args.file, None
         Restore.execute(self, args)
-        return content.get(self.trial.code_hash).decode("utf-8")
+        return native_decode_source(content.get(self.trial.code_hash))
diff --git a/capture/noworkflow/now/models/code_display.py b/capture/noworkflow/now/models/code_display.py
index 0aeae4c..9113fa5 100644
--- a/capture/noworkflow/now/models/code_display.py
+++ b/capture/noworkflow/now/models/code_display.py
@@ -7,6 +7,7 @@
 import time
 
 from future.utils import viewvalues
+from pyposast import native_decode_source
 
 from ..persistence import content
 
@@ -26,7 +27,12 @@ class CodeDisplay(object):
                 comp.id: comp
                 for comp in block.all_components
             }
-            self.code = content.get(block.code_hash).decode("utf-8")
+            code = content.get(block.code_hash)
+            if component.type in ("script", "module"):
+                # The content of a file keeps the encoding of the file
+                self.code = native_decode_source(code)
+            else:
+                self.code = code.decode("utf-8")
 
     def __getitem__(self, item):
         code = self.code.split('\n')
-- 
2.43.0


From caa28dd1b9692ac91d659d30420439ee5cc63fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:59 +0000
Subject: [PATCH 50/95] fix: end the trial when the repr of its exception is
 captured or the finders were replaced

---
 .../collection/prov_execution/collector.py    |  5 ++++-
 .../collection/prov_execution/execution.py    | 21 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index ce8036e..0797137 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1491,7 +1491,10 @@ class Collector(object):
                         assign = activation.assignments[-1]
                         future.dependencies[0].replace(assign.dependency.clone(mode="argument", kind="argument"))
                         activation.dependencies.insert(-1, assign.dependency)
-                    elif function_def.__name__ in activation.dependencies[-2].maybe_activation:
+                    elif (
+                            len(activation.dependencies) > 1 and
+                            function_def.__name__ in activation.dependencies[-2].maybe_activation
+                    ):
                         future.dependencies[0].replace(activation.dependencies[-2].clone(mode="argument", kind="argument"))
                     elif len(activation.dependencies) > 1:
                         future.dependencies[0].replace(activation.dependencies[1])
diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index 70930fa..e114049 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -21,6 +21,14 @@ from .debugger import debugger_builtins
 from .collector import Collector
 
 
+def _safe_repr(exc):
+    """Return repr of exception. The script may have defined a broken one"""
+    try:
+        return repr(exc)
+    except BaseException:  # pylint: disable=broad-except
+        return object.__repr__(exc)
+
+
 class Execution(object):
     """Execution Class"""
 
@@ -60,9 +68,14 @@ class Execution(object):
             compiled = metascript.definition.compile(
                 metascript.code, metascript.path, "exec"
             )
-            sys.meta_path.insert(0, metascript.definition.finder)
-            exec(compiled, metascript.namespace)  # pylint: disable=exec-used
-            sys.meta_path.remove(metascript.definition.finder)
+            finder = metascript.definition.finder
+            sys.meta_path.insert(0, finder)
+            try:
+                exec(compiled, metascript.namespace)  # pylint: disable=exec-used
+            finally:
+                # The script may have replaced the finders
+                if finder in sys.meta_path:
+                    sys.meta_path.remove(finder)
         except SystemExit as ex:
             # sys.exit() succeeds with None or 0. Any other code is a failure
             self.force_msg = self.partial = ex.code not in (None, 0)
@@ -78,7 +91,7 @@ class Execution(object):
             self.force_msg = self.partial = True
             self.msg = ("{}\n"
                         "the execution finished with an uncaught exception. {}"
-                        "".format(repr(exc), traceback.format_exc()))
+                        "".format(_safe_repr(exc), traceback.format_exc()))
         else:
             self.force_msg = self.partial = False
             self.msg = ("the execution of trial {} finished successfully"
-- 
2.43.0


From 8ffa4907af7713ad481480f578677352a06bcae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:59 +0000
Subject: [PATCH 51/95] fix: print messages that the output can not encode

---
 capture/noworkflow/now/utils/io.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/utils/io.py b/capture/noworkflow/now/utils/io.py
index a42d2f6..2bc36c3 100644
--- a/capture/noworkflow/now/utils/io.py
+++ b/capture/noworkflow/now/utils/io.py
@@ -46,4 +46,12 @@ class redirect_output(object):
 def print_msg(message, force=False, file=STDOUT):
     """Print message with [now] prefix when in verbose mode"""
     if verbose or force:
-        print("{}{}".format(LABEL, message), file=file)
+        text = "{}{}".format(LABEL, message)
+        try:
+            print(text, file=file)
+        except UnicodeEncodeError:
+            encoding = getattr(file, "encoding", None) or "ascii"
+            text = text.encode(encoding, "backslashreplace").decode(encoding)
+            print(text, file=file)
+        except ValueError:
+            pass  # The script has closed the file
-- 
2.43.0


From 294fe3d5e4807871faff203d3d66ec7ad36bb0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:59 +0000
Subject: [PATCH 52/95] fix: stop the engine processes when a run fails

---
 capture/noworkflow/now/cmd/cmd_run.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capture/noworkflow/now/cmd/cmd_run.py b/capture/noworkflow/now/cmd/cmd_run.py
index ed01e83..20f9ae1 100644
--- a/capture/noworkflow/now/cmd/cmd_run.py
+++ b/capture/noworkflow/now/cmd/cmd_run.py
@@ -70,6 +70,9 @@ def run(metascript, args=None):
         Trial.set_user_based_on_env(metascript.trial_id)
         metaprofiler.meta_profiler.save()
         content.commit_content(metascript.message or "Trial {}".format(metascript.trial_id))
+    except BaseException:
+        content.close()  # Do not leave the engine processes running
+        raise
     finally:
         metascript.create_last()
 
-- 
2.43.0


From 8c1bc1ee38e9cb8193a8e6f8a5a41efc08b0b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:45 +0000
Subject: [PATCH 53/95] fix: take the content of a file after its access when
 it was closed, not when open returned

---
 .../collection/prov_execution/collector.py    | 18 ++++++++++++-
 .../persistence/lightweight/file_access.py    | 27 ++++++++++++++++++-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 0797137..0c1a928 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -233,7 +233,9 @@ class Collector(object):
 
                 file_access.mode = mode
             activation.file_accesses.append(file_access)
-            return old_open(name, *args, **kwargs)
+            opened = old_open(name, *args, **kwargs)
+            file_access.set_file(opened)
+            return opened
 
         return open
 
@@ -481,10 +483,24 @@ class Collector(object):
             self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
         for file_access in activation.file_accesses:
+            caller = file_access.is_open() and self.open_caller(activation)
+            if caller:
+                # The file will be closed later. Example: activation of open
+                caller.file_accesses.append(file_access)
+                continue
             file_access.content_hash_after = self.file_content_hash(
                 file_access)
             file_access.done = True
 
+    def open_caller(self, activation):
+        """Return closest caller that is active and not closed yet or None"""
+        caller = activation.parent
+        while caller is not None and caller is not self.first_activation:
+            if caller.active and caller.evaluation.checkpoint == -1:
+                return caller
+            caller = caller.parent
+        return None
+
     def start_script(self, module_name, code_component_id, iscell):
         """Start script collection. Create new activation"""
         activation = self.start_activation(
diff --git a/capture/noworkflow/now/persistence/lightweight/file_access.py b/capture/noworkflow/now/persistence/lightweight/file_access.py
index 1b0504a..517c65e 100644
--- a/capture/noworkflow/now/persistence/lightweight/file_access.py
+++ b/capture/noworkflow/now/persistence/lightweight/file_access.py
@@ -8,6 +8,9 @@ from __future__ import (absolute_import, print_function,
 
 from datetime import datetime
 
+import os
+import weakref
+
 from future.utils import viewitems
 
 from ..models import FileAccess
@@ -21,7 +24,7 @@ class FileAccessLW(BaseLW):
         ["trial_id", "id", "name", "mode", "buffering",
          "content_hash_before", "content_hash_after",
          "checkpoint", "activation_id"],
-        ["path", "done"]
+        ["path", "done", "file"]
     )
     nullable = {"activation_id"}
     model = FileAccess
@@ -41,12 +44,34 @@ class FileAccessLW(BaseLW):
         self.checkpoint = checkpoint
         self.activation_id = activation_id
         self.done = False
+        self.file = None
 
     def update(self, variables):
         """Update file access with dict"""
         for key, value in viewitems(variables):
             setattr(self, key, value)
 
+    def is_open(self):
+        """Check if the file was not closed yet"""
+        opened = self.file
+        if isinstance(opened, int):
+            try:
+                os.fstat(opened)
+            except OSError:
+                return False
+            return True
+        opened = opened and opened()
+        return opened is not None and not getattr(opened, "closed", True)
+
+    def set_file(self, opened):
+        """Set the opened file: file descriptor or file object"""
+        if not isinstance(opened, int):
+            try:
+                opened = weakref.ref(opened)
+            except TypeError:
+                opened = None
+        self.file = opened
+
     def is_complete(self):
         """FileAccess can be removed once it is tagged as done"""
         return self.done
-- 
2.43.0


From d0b29d93fc5df9293d899e35b55eb0faa4d7bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 54/95] fix: end the engine processes when any command fails

---
 capture/noworkflow/now/persistence/content/parallel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index 6d1a323..d849be3 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -38,6 +38,7 @@ class WaitForContents(object):
 
 def create_distributed(cls, name=None):
     from multiprocessing import Process, JoinableQueue, cpu_count, Manager, Lock
+    from multiprocessing.util import Finalize
     from . import safeopen
     class Worker(Process):
 
@@ -88,6 +89,8 @@ def create_distributed(cls, name=None):
                     consumer = Worker(self.tasks, self)
                     self.consumers.append(consumer)
                     consumer.start()
+            # Do not let the processes wait forever if a command fails
+            Finalize(None, self.close, exitpriority=20)
 
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
@@ -121,6 +124,7 @@ def create_distributed(cls, name=None):
 
 def create_pool(cls, name=None):
     from multiprocessing import cpu_count, Manager, Pool, Lock
+    from multiprocessing.util import Finalize
     from . import safeopen
 
     class ProcessingPool(WaitForContents, cls):
@@ -140,6 +144,7 @@ def create_pool(cls, name=None):
             with safeopen.use_safe_open():
                 self.pool = Pool(cpu_count())
                 self.processes_started = True
+            Finalize(None, self.close, exitpriority=20)
 
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
-- 
2.43.0


From 49e41acda28117b9703099eca55ec84538c7b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 55/95] fix: consider backups without script in automatic tags

---
 .../noworkflow/now/persistence/models/tag.py   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/tag.py b/capture/noworkflow/now/persistence/models/tag.py
index 3c40675..145248c 100644
--- a/capture/noworkflow/now/persistence/models/tag.py
+++ b/capture/noworkflow/now/persistence/models/tag.py
@@ -124,14 +124,18 @@ class Tag(AlchemyProxy):
         from .trial import Trial
         from .code_block import CodeBlock
         session = session or relational.session
-        _query = select([cls.m.name]).where(
-                (Trial.m.id == cls.m.trial_id) &
+        # Backups may have no script
+        _query = select([cls.m.name]).select_from(
+            cls.t.join(Trial.t, Trial.m.id == cls.m.trial_id)
+            .outerjoin(CodeBlock.t, (
                 (Trial.m.id == CodeBlock.m.trial_id) &
-                (Trial.m.main_id == CodeBlock.m.id) &
-                (Trial.m.id != bindparam("trial_id")) &
-                (Trial.m.experiment_id == experiment_id) &
-                (cls.m.type == "AUTO")
-            )
+                (Trial.m.main_id == CodeBlock.m.id)
+            ))
+        ).where(
+            (Trial.m.id != bindparam("trial_id")) &
+            (Trial.m.experiment_id == experiment_id) &
+            (cls.m.type == "AUTO")
+        )
 
         conditions = [
             (1, ((CodeBlock.m.code_hash == bindparam("code_hash")) &
-- 
2.43.0


From 9f9ef66b69b198235ae9810b9d72aeb9528f6ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 56/95] fix: match the paths of versioned files by their parts
 and skip missing scripts

---
 .../now/persistence/models/trial.py           | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index f90df9c..2e40d6d 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -386,9 +386,13 @@ class Trial(AlchemyProxy):
                 continue
             elif not os.path.isabs(path):
                 yield module
-            elif path.startswith(self.path):
+            elif self._is_inside(path):
                 yield module
 
+    def _is_inside(self, path):
+        """Check if absolute path is inside the trial path"""
+        return path.startswith(os.path.join(self.path, ""))
+
     @property
     def script_content(self):
         """Return the "main" script content of the trial
@@ -632,12 +636,12 @@ class Trial(AlchemyProxy):
         def add(path, info):
             """Add file to dict"""
             if os.path.isabs(path):
-                if not path.startswith(self.path):
+                if not self._is_inside(path):
                     return
                 path = os.path.relpath(path, self.path)
             files[path] = info
 
-        if script:
+        if script and self.main:
             add(self.script, {"code_hash": self.code_hash, "type": "script"})
         if local:
             # pylint: disable=not-an-iterable
@@ -693,18 +697,22 @@ class Trial(AlchemyProxy):
         [('file2.txt', [('checkpoint', ...), ('code_hash', None), ('type', 'access')]),
          ('file2.txt', [('checkpoint', ...), ('code_hash', 'def'), ('type', 'access')])]
         """
-        if not path or self.script.endswith(path):
+        def match(name):
+            """Check if the path refers to the last parts of the name"""
+            return not path or ("/" + name).endswith("/" + path)
+
+        if match(self.script):
             yield self.script, {"code_hash": self.code_hash, "type": "script"}
         # pylint: disable=not-an-iterable
         for module in self.local_modules:
-            if not path or module.path.endswith(path):
+            if match(module.path):
                 yield module.path, {
                     "code_hash": module.code_hash,
                     "type": "module",
                     "name": module.name
                 }
         for faccess in list(self.file_accesses):
-            if not path or faccess.name.endswith(path):
+            if match(faccess.name):
                 yield faccess.name, {
                     "code_hash": faccess.content_hash_before,
                     "type": "access",
-- 
2.43.0


From 6d324d5bb7e04b1c6b6f73dbbcf0ca39bbb854b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:41 +0000
Subject: [PATCH 57/95] fix: back up what a restore replaces and restore in the
 project directory

---
 capture/noworkflow/now/cmd/cmd_restore.py | 59 ++++++++++++++++-------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index a1b1e47..5f46224 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -65,6 +65,9 @@ class Restore(Command):
         arguments = metascript.arguments_store
 
         old_id = metascript.trial_id
+        # The backup has its own modules
+        metascript.bypass_modules = False
+        metascript.main_id = None
         metascript.trial_id = Trial.create(*metascript.create_trial_args())
         tid = metascript.trial_id
         metascript.create_arguments(args)
@@ -73,12 +76,13 @@ class Restore(Command):
 
         for path, info in viewitems(files):
             if info["type"] == "script":
-                metascript.path = path
-                metascript.definition.create_code_block(
-                    None, path, "script", False, True
-                )
+                metascript.main_id = metascript.definition.create_code_block(
+                    None, absolute_path(path), "script", False, True
+                )[1]
             elif info["type"] == "module":
-                path = os.path.abspath(path)
+                if info["code_hash"] is None:
+                    continue
+                path = absolute_path(path)
                 cid = metascript.definition.create_code_block(
                     None, path, "module", False, True
                 )[1]
@@ -133,17 +137,18 @@ class Restore(Command):
         new_code_hash = file_hash(path)
         if code_hash == new_code_hash:
             return False
+        full_path = absolute_path(path)
         if code_hash is None and mode != "script":
-            os.remove(path)
+            os.remove(full_path)
             print_msg("File {} removed".format(path), self.print_msg)
             return True
         elif code_hash is not None:
             load_file = content.get(code_hash)
             try:
-                parent = os.path.dirname(path)
+                parent = os.path.dirname(full_path)
                 if parent:
                     os.makedirs(parent, exist_ok=True)
-                with open(path, "wb") as fil:
+                with open(full_path, "wb") as fil:
                     fil.write(load_file)
                 msg = "File {}".format(path)
                 if trial_id:
@@ -183,13 +188,30 @@ class Restore(Command):
             new_files[path] = info
         return match, new_files
 
+    def find_overwritten(self, restore_files, new_files):
+        """Add to new_files the existing scripts and modules that are not there
+        and that the restore will overwrite
+
+        Return True if there is none.
+        """
+        match = True
+        for path, info in viewitems(restore_files):
+            if info["type"] == "access" or path in new_files:
+                continue
+            new_code_hash = file_hash(path)
+            if new_code_hash not in (None, info["code_hash"]):
+                new_files[path] = dict(info, code_hash=new_code_hash)
+                match = False
+                print_msg("{} has changed".format(path), self.print_msg)
+        return match
+
     def execute(self, args):
         metascript = Metascript().read_restore_args(args)
         persistence_config.connect_existing(args.dir or os.getcwd())
         self.trial = trial = metascript.trial = Trial(trial_ref=args.trial)
         metascript.trial_id = trial.id
         metascript.name = trial.script
-        metascript.path = trial.path
+        metascript.path = os.path.join(trial.path, trial.script)
 
         restore_files = trial.versioned_files(**skip_dict(args))
         if not args.file:
@@ -197,6 +219,7 @@ class Restore(Command):
 
             last_files = head.versioned_files(**skip_dict(args))
             match, new_files = self.find_differences(last_files)
+            match &= self.find_overwritten(restore_files, new_files)
             if not match:
                 self.create_backup(metascript, new_files, args)
 
@@ -225,11 +248,11 @@ class Restore(Command):
 
             parsed = parser.parse_args(args.file)
 
-            restore = self.find_file(args.trial, parsed.path, parsed.id)
+            restore = self.find_file(trial.id, parsed.path, parsed.id)
             if not restore:
                 print_msg("File version not found!", self.print_msg)
             else:
-                path = parsed.target or parsed.path
+                path = os.path.abspath(parsed.target or parsed.path)
                 if not self.restore(path, restore[1], None):
                     print_msg("File has not changed!", self.print_msg)
             content.close()
@@ -237,8 +260,6 @@ class Restore(Command):
     def find_file(self, tid, path, fid):                                         # pylint: disable=no-self-use
         """Find file according to timestamp, code_hash, and number of access"""
         if sys.version_info < (3, 0):
-            if tid:
-                tid = tid.decode("utf-8")
             path = path.decode("utf-8")
             fid = fid.decode("utf-8")
 
@@ -261,11 +282,10 @@ class Restore(Command):
             if code_hash:
                 return path, code_hash
 
-        if tid and fid.isnumeric():
+        if fid.isnumeric():
             # Count accesses
             fid = int(fid)
-            trial = Trial(tid)
-            for i, result in enumerate(trial.iterate_accesses(path)):
+            for i, result in enumerate(self.trial.iterate_accesses(path)):
                 if fid == i + 1:
                     return path, result[1]["code_hash"]
 
@@ -286,9 +306,14 @@ def time_str(arg):
     return None
 
 
+def absolute_path(path):
+    """Return absolute path of a file of the project"""
+    return os.path.abspath(os.path.join(persistence_config.base_path, path))
+
+
 def file_hash(path):
     """Return hash of file in path or None"""
-    abs_path = os.path.join(persistence_config.base_path, path)
+    abs_path = absolute_path(path)
     if not os.path.isfile(abs_path):
         return None
     else:
-- 
2.43.0


From ce6e8b2329cde83b5a221a034b1435d37adb2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:27 +0000
Subject: [PATCH 58/95] fix: do not execute the modules that a restore backs up

---
 capture/noworkflow/now/cmd/cmd_restore.py | 47 +++++++++++++----------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index 5f46224..7ec97ca 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -7,9 +7,11 @@ from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
 import argparse
+import ast
 import os
 import sys
 import time
+import types
 
 from datetime import datetime
 from future.utils import viewitems
@@ -19,7 +21,6 @@ from ..persistence.models import Trial, Module, FileAccess, Tag
 from ..persistence.models import CodeComponent, CodeBlock, Argument
 from ..persistence import persistence_config, content
 from ..utils.io import print_msg
-from ..utils.cross_version import PY34, PY35, PY2
 
 from .command import Command
 
@@ -86,26 +87,10 @@ class Restore(Command):
                 cid = metascript.definition.create_code_block(
                     None, path, "module", False, True
                 )[1]
-                version = None
-                try:
-                    if PY35:
-                        import importlib.util
-                        spec = importlib.util.spec_from_file_location(
-                            info["name"], path
-                        )
-                        module = importlib.util.module_from_spec(spec)
-                        spec.loader.exec_module(module)
-                    elif PY34:
-                        from importlib.machinery import SourceFileLoader
-                        module = SourceFileLoader(
-                            info["name"], path
-                        ).load_module()
-                    elif PY2:
-                        import imp
-                        module = imp.load_source(info["name"], path)
-                    version = metascript.deployment.get_version(module)
-                except Exception:
-                    pass
+                # Do not execute the module just to get its version
+                version = metascript.deployment.get_version(
+                    constants_module(info["name"], path)
+                )
                 metascript.deployment.add_module(
                     info["name"], version, path, cid, False, None
                 )
@@ -311,6 +296,26 @@ def absolute_path(path):
     return os.path.abspath(os.path.join(persistence_config.base_path, path))
 
 
+def constants_module(name, path):
+    """Create module that only has the constants that the file defines"""
+    module = types.ModuleType(name)
+    try:
+        with open(path, "rb") as fil:
+            tree = ast.parse(fil.read(), path)
+    except (SyntaxError, ValueError, IOError):
+        return module
+    for node in tree.body:
+        if isinstance(node, ast.Assign):
+            for target in node.targets:
+                try:
+                    value = ast.literal_eval(node.value)
+                except (ValueError, TypeError):
+                    continue
+                if isinstance(target, ast.Name):
+                    setattr(module, target.id, value)
+    return module
+
+
 def file_hash(path):
     """Return hash of file in path or None"""
     abs_path = absolute_path(path)
-- 
2.43.0


From 9a505a446249936f0aff5f4d6b077f3efda5b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:21 +0000
Subject: [PATCH 59/95] fix: record the mode and buffering of every form of
 open, once

---
 .../collection/prov_execution/collector.py    | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 0c1a928..e4e2dac 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -216,24 +216,30 @@ class Collector(object):
             file_access.content_hash_before = self.file_content_hash(
                 file_access)
             file_access.activation_id = activation.id
-            # Update with the informed keyword arguments (mode / buffering)
-            file_access.update(kwargs)
-            # Update with the informed positional arguments
-            if len(args) > 1:
-                file_access.buffering = args[1]
-            elif args:
-                mode = args[0]
-                if osopen:
-                    mode = ""
-                    for key, value in viewitems(OPEN_MODES):
-                        flag = getattr(os, key, 0)
-                        if args[0] & flag:
-                            value = value or "({})".format(key)
-                            mode += value
-
+            if osopen:
+                flags = args[0] if args else kwargs.get("flags", 0)
+                mode = ""
+                if not flags & (os.O_WRONLY | os.O_RDWR):
+                    mode = OPEN_MODES["O_RDONLY"]
+                for key, value in viewitems(OPEN_MODES):
+                    flag = getattr(os, key, 0)
+                    if flag and flags & flag == flag:
+                        value = value or "({})".format(key)
+                        mode += value
                 file_access.mode = mode
+            else:
+                # Update with the informed keyword arguments (mode / buffering)
+                file_access.update(kwargs)
+                # Update with the informed positional arguments
+                position = 3 if old_open is content.codecs_open else 1
+                if len(args) > position:
+                    file_access.buffering = args[position]
+                if args:
+                    file_access.mode = args[0]
             activation.file_accesses.append(file_access)
-            opened = old_open(name, *args, **kwargs)
+            with content.use_safe_open():
+                # It may use the other open functions
+                opened = old_open(name, *args, **kwargs)
             file_access.set_file(opened)
             return opened
 
-- 
2.43.0


From c8822dd962533e6ad6708e575dd6fc8e44aa3a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:04 +0000
Subject: [PATCH 60/95] fix: do not record the files opened while the content
 engine threads and processes report errors

---
 .../now/persistence/content/parallel.py       | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index d849be3..609af27 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -7,6 +7,17 @@
 import threading
 import traceback
 
+from . import safeopen
+
+def store(engine, attrs):
+    """Store content. The files that are opened in the process, including the
+    ones that are opened to print an error, are not accesses of the trial"""
+    with safeopen.use_safe_open():
+        try:
+            engine.do_put(*attrs)
+        except Exception:  # pylint: disable=broad-except
+            traceback.print_exc()
+
 
 class WaitForContents(object):
     """Wait for the contents that are being stored before accessing them"""
@@ -39,7 +50,6 @@ class WaitForContents(object):
 def create_distributed(cls, name=None):
     from multiprocessing import Process, JoinableQueue, cpu_count, Manager, Lock
     from multiprocessing.util import Finalize
-    from . import safeopen
     class Worker(Process):
 
         def __init__(self, task_queue, engine):
@@ -47,7 +57,6 @@ def create_distributed(cls, name=None):
                 Process.__init__(self)
                 self.task_queue = task_queue
                 self.engine = engine
-            
 
         def run(self):
             while True:
@@ -58,9 +67,7 @@ def create_distributed(cls, name=None):
                     break
 
                 try:
-                    self.engine.do_put(*queue_content)
-                except Exception:  # pylint: disable=broad-except
-                    traceback.print_exc()
+                    store(self.engine, queue_content)
                 finally:
                     self.task_queue.task_done()
 
@@ -186,7 +193,7 @@ def create_threading(cls, name=None):
 
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
-            t = threading.Thread(target=self.do_put, args=self.put_attr(content, filename))
+            t = threading.Thread(target=store, args=(self, self.put_attr(content, filename)))
             t.start()
             self.persistence_threads.append(t)
             content_hash = self._get_hash_from_content(content)
-- 
2.43.0


From c491a2a845fcd08774d25333e73b026675fc4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:04 +0000
Subject: [PATCH 61/95] fix: create all tables of the provenance database in
 one transaction

---
 .../now/persistence/relational_database.py        | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/persistence/relational_database.py b/capture/noworkflow/now/persistence/relational_database.py
index 5be2d34..dee7850 100644
--- a/capture/noworkflow/now/persistence/relational_database.py
+++ b/capture/noworkflow/now/persistence/relational_database.py
@@ -8,9 +8,9 @@ from __future__ import (absolute_import, print_function,
 
 import threading
 
-from os.path import join, exists
+from os.path import join
 
-from sqlalchemy import create_engine
+from sqlalchemy import create_engine, inspect, text
 from sqlalchemy.ext.declarative import declarative_base
 from sqlalchemy.orm import scoped_session, sessionmaker
 
@@ -45,10 +45,8 @@ class RelationalDatabase(object):
         """Create database connection
         If database does not exist, create it as well
         """
-        new_db = not exists(self.db_path)
-
         if config.should_mock:
-            new_db, self.db_path = True, ""
+            self.db_path = ""
 
         self.engine = create_engine(
             "sqlite://" + ("/" if self.db_path else "") + self.db_path,
@@ -57,9 +55,12 @@ class RelationalDatabase(object):
                                        expire_on_commit=True)
         self._session_map = {}
 
-        if new_db:
+        if not inspect(self.engine).get_table_names():
             print_msg("creating provenance database")
-            self.base.metadata.create_all(self.engine)
+            # Create all tables or none, even if the process is interrupted
+            with self.engine.begin() as connection:
+                connection.execute(text("BEGIN IMMEDIATE"))
+                self.base.metadata.create_all(connection)
 
     def make_session(self):
         """Create thread safe session"""
-- 
2.43.0


From 34fb2e510835b5dcb8f2ecdcc817aa4b6a183269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:03 +0000
Subject: [PATCH 62/95] fix: commits of the content database remove the locks
 that interrupted processes left

---
 .../now/persistence/content/gitbase.py        | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index 70d1dd3..1adaf80 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -1,5 +1,6 @@
 import os
 import hashlib
+import time
 
 from collections import Counter
 
@@ -9,6 +10,7 @@ from .base import ContentDatabaseEngine
 
 
 GIT_DATABASE_DIR = 'content.git'
+LOCK_TIMEOUT = 5  # seconds. The operations that hold locks are much shorter
 
 
 class GitContentDatabaseEngine(ContentDatabaseEngine):
@@ -33,9 +35,31 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
     def gc(self, aggressive=False):
         git_system.garbage_collection(self.content_path, aggressive)
 
+    def remove_stale_locks(self):
+        """Remove the locks that interrupted processes left in the repository"""
+        for name in (self._commit_ref, "HEAD", "index"):
+            path = os.path.join(self.content_path, name + ".lock")
+            first = last = self._lock_state(path)
+            end = time.time() + LOCK_TIMEOUT
+            while last and last == first and time.time() < end:
+                time.sleep(0.05)
+                last = self._lock_state(path)
+            if last and last == first:
+                os.remove(path)
+
+    @staticmethod
+    def _lock_state(path):
+        """Identify lock file. Return None if it does not exist"""
+        try:
+            stat = os.stat(path)
+            return stat.st_ino, stat.st_mtime
+        except OSError:
+            return None
+
     def commit_content(self, message):
         """Commit the current files of content database"""
         self.close()
+        self.remove_stale_locks()
         trees = {'': self.new_tree('')}
 
         blobs = [
-- 
2.43.0


From 7319b4310c0dec1e098831072619695acf97a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:13 +0000
Subject: [PATCH 63/95] fix: the repository of the content database gets its
 name after being completely created

---
 .../now/persistence/content/dulwich_engine.py | 17 +++++++-----
 .../now/persistence/content/gitbase.py        | 26 +++++++++++++++++++
 .../now/persistence/content/puregit_engine.py |  7 +++--
 .../now/persistence/content/pygit_engine.py   | 17 +++++++-----
 4 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 655af96..0a90984 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -26,12 +26,17 @@ class DulwichEngine(GitContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not os.path.isdir(self.content_path):
-            os.makedirs(self.content_path)
-            Repo.init_bare(self.content_path)
-            self.repo = Repo(self.content_path)
-            self.create_initial_commit()
-        else:
-            self.repo = Repo(self.content_path)
+            self.create_repository()
+        self.open_repository()
+
+    def init_repository(self):
+        """Initialize the repository in content_path"""
+        os.makedirs(self.content_path)
+        Repo.init_bare(self.content_path)
+
+    def open_repository(self):
+        """Open the repository of content_path"""
+        self.repo = Repo(self.content_path)
 
     @staticmethod
     def do_put(content_path, object_hashes, lock, content, filename):
diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index 1adaf80..13d9727 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -1,5 +1,6 @@
 import os
 import hashlib
+import shutil
 import time
 
 from collections import Counter
@@ -32,6 +33,31 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self.content_path = os.path.join(config.provenance_path, GIT_DATABASE_DIR)
         self.base_path = os.path.abspath(config.base_path)
 
+    def create_repository(self):
+        """Create repository. It only gets its name after being completely created"""
+        content_path = self.content_path
+        self.content_path = "{}-{}".format(content_path, os.getpid())
+        shutil.rmtree(self.content_path, ignore_errors=True)
+        try:
+            self.init_repository()
+            self.open_repository()
+            self.create_initial_commit()
+            os.rename(self.content_path, content_path)
+        except OSError:
+            if not os.path.isdir(content_path):
+                raise
+            # Other process created it
+        finally:
+            shutil.rmtree(self.content_path, ignore_errors=True)
+            self.content_path = content_path
+
+    def init_repository(self):
+        """Initialize the repository in content_path"""
+        raise NotImplementedError("Implement in subclass")
+
+    def open_repository(self):
+        """Open the repository of content_path"""
+
     def gc(self, aggressive=False):
         git_system.garbage_collection(self.content_path, aggressive)
 
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index 35852b6..6329e6e 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -15,8 +15,11 @@ class PureGitEngine(GitContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not isdir(self.content_path):
-            git_system.init(self.content_path)
-            self.create_initial_commit()
+            self.create_repository()
+
+    def init_repository(self):
+        """Initialize the repository in content_path"""
+        git_system.init(self.content_path)
 
     @staticmethod
     def do_put(content_path, object_hashes, content, filename):
diff --git a/capture/noworkflow/now/persistence/content/pygit_engine.py b/capture/noworkflow/now/persistence/content/pygit_engine.py
index 4b199c5..03ff296 100644
--- a/capture/noworkflow/now/persistence/content/pygit_engine.py
+++ b/capture/noworkflow/now/persistence/content/pygit_engine.py
@@ -26,12 +26,17 @@ class PyGitEngine(GitContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not isdir(self.content_path):
-            init_repository(self.content_path, bare=True)
-            self.repo = Repository(self.content_path)
-            self.create_initial_commit()
-        else:
-            self.repo = Repository(self.content_path)
-        
+            self.create_repository()
+        self.open_repository()
+
+    def init_repository(self):
+        """Initialize the repository in content_path"""
+        init_repository(self.content_path, bare=True)
+
+    def open_repository(self):
+        """Open the repository of content_path"""
+        self.repo = Repository(self.content_path)
+
     @staticmethod
     def do_put(content_path, object_hashes, content, filename):
         """Perform put operation. This is used in the distributed wrapper"""
-- 
2.43.0


From 565700fad72e406e8d90e63c40e583f868c1e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:13 +0000
Subject: [PATCH 64/95] fix: dulwich removes the lock that an interrupted
 process left for an object

---
 .../now/persistence/content/dulwich_engine.py | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 0a90984..26e2a72 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -15,6 +15,22 @@ from .gitbase import GitContentDatabaseEngine
 from .parallel import create_distributed, create_pool, create_threading, NullLock
 from . import safeopen
 
+def add_object(object_store, obj):
+    """Add object to the store"""
+    for attempt in range(100, -1, -1):
+        try:
+            return object_store.add_object(obj)
+        except file.FileLocked as exc:
+            # Other process is storing the same object
+            if attempt > 1:
+                time.sleep(0.05)
+            elif attempt and os.path.exists(exc.lockfilename):
+                # Other process was interrupted while it was storing it
+                os.remove(exc.lockfilename)
+            elif not attempt:
+                raise
+
+
 class DulwichEngine(GitContentDatabaseEngine):
 
     def __init__(self, config):
@@ -45,15 +61,7 @@ class DulwichEngine(GitContentDatabaseEngine):
             object_store = Repo(content_path).object_store
             blob = Blob.from_string(content)
             with lock:
-                for attempt in range(100, -1, -1):
-                    try:
-                        object_store.add_object(blob)
-                        break
-                    except file.FileLocked:
-                        # Other process is storing the same content
-                        if not attempt:
-                            raise
-                        time.sleep(0.05)
+                add_object(object_store, blob)
             result = object_hashes[filename] = blob.id.decode("ascii")
             return result
 
@@ -106,7 +114,7 @@ class DulwichEngine(GitContentDatabaseEngine):
         with self.use_safe_open():
             object_store = self.repo.object_store
             empty_tree = Tree()
-            object_store.add_object(empty_tree)
+            add_object(object_store, empty_tree)
             self.create_commit_object(self._initial_message, empty_tree.id)
 
     def create_commit_object(self, message, tree):
@@ -129,7 +137,7 @@ class DulwichEngine(GitContentDatabaseEngine):
             commit.encoding = self._commit_encoding.encode()
             commit.message = message.encode()
 
-            self.repo.object_store.add_object(commit)
+            add_object(self.repo.object_store, commit)
             self.repo.refs[
                 self._commit_ref.encode("utf-8")
             ] = commit.id
@@ -151,7 +159,7 @@ class DulwichEngine(GitContentDatabaseEngine):
     def write_tree(self, tree):
         """Write tree to git directory"""
         with self.restore_open(): 
-            self.repo.object_store.add_object(tree)
+            add_object(self.repo.object_store, tree)
             return tree.id
 
 
-- 
2.43.0


From c85040ff01c7db80c161f99322732ebdc9405a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 65/95] fix: keep the last column of code components in bundles

---
 .../noworkflow/now/persistence/lightweight/code_component.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/code_component.py b/capture/noworkflow/now/persistence/lightweight/code_component.py
index 006709a..bf68380 100644
--- a/capture/noworkflow/now/persistence/lightweight/code_component.py
+++ b/capture/noworkflow/now/persistence/lightweight/code_component.py
@@ -57,6 +57,6 @@ class CodeComponentLW(BaseLW):
             'first_char_line': self.first_char_line,
             'first_char_column': self.first_char_column,
             'last_char_line': self.last_char_line,
-            'last_char_column': self.last_char_line,
+            'last_char_column': self.last_char_column,
             'container_id': self.container_id
         }
-- 
2.43.0


From bc9c9e6752eb1e45384940b327f4d7c2350a3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 66/95] fix: transfer the containers of the members of
 evaluations

---
 .../noworkflow/now/persistence/lightweight/bundle.py  |  3 ++-
 .../now/persistence/lightweight/evaluation.py         | 11 +++++++++--
 capture/noworkflow/now/utils/collab.py                |  3 ++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/bundle.py b/capture/noworkflow/now/persistence/lightweight/bundle.py
index 52f7ac7..8779797 100644
--- a/capture/noworkflow/now/persistence/lightweight/bundle.py
+++ b/capture/noworkflow/now/persistence/lightweight/bundle.py
@@ -68,7 +68,8 @@ class BundleLW(BaseLW):
         self.dependencies=[DependencyLW(x["id"],x["trial_id"],x["dependent_activation_id"],x["dependent_id"],x["dependency_activation_id"],\
             x["dependency_id"],x["type"],x["reference"],x["collection_activation_id"],x["collection_id"],x["key"]) for x in data["dependencies"]]
         self.environmentAttrs=[EnvironmentAttrLW(x["id"],x["trial_id"],x["name"],x["value"]) for x in data["environmentAttrs"]]
-        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"]) for x in data["evaluations"]]
+        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"],\
+            x.get("member_container_activation_id"),x.get("member_container_id")) for x in data["evaluations"]]
         self.fileAccesses=[FileAccessLW(x["id"],x["trial_id"],x["name"],x["checkpoint"],x["mode"],x["buffering"],\
             x["content_hash_before"],x["content_hash_after"],x["activation_id"]) for x in data["fileAccesses"]]
         self.members=[MemberLW(x["id"],x["trial_id"],x["collection_activation_id"],x["collection_id"],x["member_activation_id"],\
diff --git a/capture/noworkflow/now/persistence/lightweight/evaluation.py b/capture/noworkflow/now/persistence/lightweight/evaluation.py
index cc9dada..6371e3c 100644
--- a/capture/noworkflow/now/persistence/lightweight/evaluation.py
+++ b/capture/noworkflow/now/persistence/lightweight/evaluation.py
@@ -20,7 +20,9 @@ class EvaluationLW(BaseLW):
     nullable = {"checkpoint"}
     model = Evaluation
 
-    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_):
+    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_,
+                 member_container_activation_id=None, member_container_id=None):
+        # pylint: disable=too-many-arguments
         self.trial_id = trial_id
         self.id = id_                                                            # pylint: disable=invalid-name
         self.code_component_id = code_id
@@ -30,6 +32,9 @@ class EvaluationLW(BaseLW):
         self._same = None
         self.member_container_activation_id = self.activation_id
         self.member_container_id = id_
+        if member_container_id is not None:
+            self.member_container_activation_id = member_container_activation_id
+            self.member_container_id = member_container_id
         self.members = {}
 
     def same(self):
@@ -69,5 +74,7 @@ class EvaluationLW(BaseLW):
             'code_component_id': self.code_component_id,
             'activation_id': self.activation_id,
             'checkpoint': self.checkpoint,
-            'repr': self.repr
+            'repr': self.repr,
+            'member_container_activation_id': self.member_container_activation_id,
+            'member_container_id': self.member_container_id,
         }
diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index 3d41167..d85b48a 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -110,7 +110,8 @@ def export_bundle(trialIds,usersIds=[]):
         [EnvironmentAttrLW(x.id,x.trial_id,x.name,x.value) for x in envToImport]
     )
     bundle.evaluations.extend(
-        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr) for x in evaluationToImport]
+        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr,\
+            x.member_container_activation_id,x.member_container_id) for x in evaluationToImport]
     )
     bundle.fileAccesses.extend(
         [FileAccessLW(x.id,x.trial_id,x.name,x.checkpoint,x.mode,x.buffering,\
-- 
2.43.0


From fdfe64cc71601d908f983833210923fe7fd74649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 67/95] fix: pull contents from servers into git content
 databases

---
 capture/noworkflow/now/cmd/cmd_pull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_pull.py b/capture/noworkflow/now/cmd/cmd_pull.py
index 016de33..2de22b5 100644
--- a/capture/noworkflow/now/cmd/cmd_pull.py
+++ b/capture/noworkflow/now/cmd/cmd_pull.py
@@ -71,7 +71,7 @@ class Pull(Command):
         print("Importing file: "+url)
         headers = {'Accept-Encoding': 'gzip'}
         response=requests.get(url, headers=headers)
-        content.put(response.content, None)
+        content.put(response.content)
 
     def importFiles(self,url):
         filesUrl=self.url+"/collab/files"
-- 
2.43.0


From 7cd39e1a7ec17c961601a65e6a479a91329f1328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 68/95] fix: transfer the users that ran the trials

---
 capture/noworkflow/now/utils/collab.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index d85b48a..4804377 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -40,7 +40,8 @@ def import_bundle(bundle, experiment=None):
     [fileAccess_store.add_from_object(x) for x in bundle.fileAccesses]
     [member_store.add_from_object(x) for x in bundle.members]
     [module_store.add_from_object(x) for x in bundle.modules]
-    [user_store.add_from_object(x) for x in bundle.users]
+    localUsers={u.id for u in User.all()}
+    [user_store.add_from_object(x) for x in bundle.users if x.id not in localUsers]
 
     trials_store.do_store()
     arguments_store.do_store()
@@ -77,6 +78,7 @@ def export_bundle(trialIds,usersIds=[]):
     fileAccessToImport=FileAccess.load_by_trials(trialIds)
     memberToImport=Member.load_by_trials(trialIds)
     moduleToImport=Module.load_by_trials(trialIds)
+    usersIds=set(usersIds) | {t.user_id for t in trialsToImport}
     usersToImport=[u for u in User.all() if u.id in usersIds ]
     
 
-- 
2.43.0


From 2e1117c78c1a8ec805f553d1f45fe65418da031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:27 +0000
Subject: [PATCH 69/95] fix: importing trials keeps the ones that are already
 stored

---
 capture/noworkflow/now/utils/collab.py | 32 +++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index 4804377..07d2ae0 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -28,18 +28,24 @@ def import_bundle(bundle, experiment=None):
     module_store=ObjectStore(ModuleLW)
     user_store=ObjectStore(UserLW)
 
-    [store_trial_from_experiment(x,experiment,trials_store) for x in bundle.trials]
-    [codeBlock_store.add_from_object(x) for x in bundle.codeBlocks]
-    [arguments_store.add_from_object(x) for x in bundle.arguments]
-    [codeComponent_store.add_from_object(x) for x in bundle.codeComponents]
-    [activation_store.add_from_object(x) for x in bundle.activations]
-    [composition_store.add_from_object(x) for x in bundle.compositions]
-    [dependency_store.add_from_object(x) for x in bundle.dependencies]
-    [env_store.add_from_object(x) for x in bundle.environmentAttrs]
-    [evaluation_store.add_from_object(x) for x in bundle.evaluations]
-    [fileAccess_store.add_from_object(x) for x in bundle.fileAccesses]
-    [member_store.add_from_object(x) for x in bundle.members]
-    [module_store.add_from_object(x) for x in bundle.modules]
+    # Trials that are already stored stay as they are
+    localTrials={t.id for t in Trial.all()}
+    def new_objects(objects):
+        return [x for x in objects if x.trial_id not in localTrials]
+
+    trials=new_objects(bundle.trials)
+    [store_trial_from_experiment(x,experiment,trials_store) for x in trials]
+    [codeBlock_store.add_from_object(x) for x in new_objects(bundle.codeBlocks)]
+    [arguments_store.add_from_object(x) for x in new_objects(bundle.arguments)]
+    [codeComponent_store.add_from_object(x) for x in new_objects(bundle.codeComponents)]
+    [activation_store.add_from_object(x) for x in new_objects(bundle.activations)]
+    [composition_store.add_from_object(x) for x in new_objects(bundle.compositions)]
+    [dependency_store.add_from_object(x) for x in new_objects(bundle.dependencies)]
+    [env_store.add_from_object(x) for x in new_objects(bundle.environmentAttrs)]
+    [evaluation_store.add_from_object(x) for x in new_objects(bundle.evaluations)]
+    [fileAccess_store.add_from_object(x) for x in new_objects(bundle.fileAccesses)]
+    [member_store.add_from_object(x) for x in new_objects(bundle.members)]
+    [module_store.add_from_object(x) for x in new_objects(bundle.modules)]
     localUsers={u.id for u in User.all()}
     [user_store.add_from_object(x) for x in bundle.users if x.id not in localUsers]
 
@@ -57,7 +63,7 @@ def import_bundle(bundle, experiment=None):
     module_store.do_store()
     user_store.do_store()
 
-    for x in bundle.trials:
+    for x in trials:
         main_block=[c for c in bundle.codeBlocks if c.trial_id==x.id and x.main_id==c.id]
         main_block_code_hash=None
         if len(main_block)>0:
-- 
2.43.0


From 8981e2a5a61faf7486b06f3373f1c6759d673bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:27 +0000
Subject: [PATCH 70/95] fix: import the records of trials in one transaction

---
 capture/noworkflow/now/utils/collab.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index 07d2ae0..5b0876d 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -3,6 +3,7 @@
 # This file is part of noWorkflow.
 # Please, consult the license terms in the LICENSE file.
 
+from ..persistence import relational
 from ..persistence.lightweight import ActivationLW,ArgumentLW,CodeBlockLW,CodeComponentLW,CompositionLW,DependencyLW,EnvironmentAttrLW
 from ..persistence.lightweight import EvaluationLW,FileAccessLW,MemberLW,ModuleLW,TrialLW,BundleLW,UserLW
 
@@ -49,19 +50,13 @@ def import_bundle(bundle, experiment=None):
     localUsers={u.id for u in User.all()}
     [user_store.add_from_object(x) for x in bundle.users if x.id not in localUsers]
 
-    trials_store.do_store()
-    arguments_store.do_store()
-    codeBlock_store.do_store()
-    codeComponent_store.do_store()
-    activation_store.do_store()
-    composition_store.do_store()
-    dependency_store.do_store()
-    env_store.do_store()
-    evaluation_store.do_store()
-    fileAccess_store.do_store()
-    member_store.do_store()
-    module_store.do_store()
-    user_store.do_store()
+    # Store everything or nothing
+    with relational.engine.begin() as connection:
+        for store in (trials_store, arguments_store, codeBlock_store,
+                      codeComponent_store, activation_store, composition_store,
+                      dependency_store, env_store, evaluation_store,
+                      fileAccess_store, member_store, module_store, user_store):
+            store.cls.model.store(store, False, connection)
 
     for x in trials:
         main_block=[c for c in bundle.codeBlocks if c.trial_id==x.id and x.main_id==c.id]
-- 
2.43.0


From e98fa8cf2b32cf2553dd3b5b19fa8e14ee70ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:31 +0000
Subject: [PATCH 71/95] fix: escape control characters and keep letters before
 unbalanced quotes in Prolog facts

---
 capture/noworkflow/now/utils/prolog.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/utils/prolog.py b/capture/noworkflow/now/utils/prolog.py
index cdc3a01..22024bb 100644
--- a/capture/noworkflow/now/utils/prolog.py
+++ b/capture/noworkflow/now/utils/prolog.py
@@ -5,8 +5,20 @@
 """Helpers for Prolog Extraction"""
 
 
+import re
+
 from datetime import datetime
-from string import ascii_letters
+
+# String representation with optional prefix
+QUOTED = re.compile(r"""^[A-Za-z]?(['"])(.*)\1\Z""", re.DOTALL)
+
+# Characters that cannot appear in quoted atoms
+CONTROL_CHARACTERS = {
+    code: "\\x{:x}\\".format(code) for code in list(range(32)) + [127]
+}
+CONTROL_CHARACTERS[ord("\n")] = "\\n"
+CONTROL_CHARACTERS[ord("\r")] = "\\r"
+CONTROL_CHARACTERS[ord("\t")] = "\\t"
 
 
 class PrologDescription(object):
@@ -113,13 +125,10 @@ class PrologRepr(PrologAttribute):
         value = self.value(obj)
         if not isinstance(value, str):
             value = repr(value)
-        value = value.replace("\\", "\\\\")
-
-        if len(value) > 1:
-            if value[0] in ascii_letters and value[1] in ('"', "'"):
-                value = value[1:]
-            if value[0] in ('"', "'") and value[-1] == value[0]:
-                value = value[1:-1]
+        match = QUOTED.match(value)
+        if match:
+            value = match.group(2)
+        value = value.replace("\\", "\\\\").translate(CONTROL_CHARACTERS)
 
         return "'{}'".format(value.replace("'", "''"))
 
-- 
2.43.0


From 80ff4655806f0d13b9249965d5fdad7337544208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:51 +0000
Subject: [PATCH 72/95] fix: export the transformed flag and the missing full
 path of modules as valid Prolog

---
 capture/noworkflow/now/persistence/models/module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/module.py b/capture/noworkflow/now/persistence/models/module.py
index 3268443..28d3ed2 100644
--- a/capture/noworkflow/now/persistence/models/module.py
+++ b/capture/noworkflow/now/persistence/models/module.py
@@ -10,7 +10,7 @@ from sqlalchemy import Column, Integer, String, Text, Boolean, select, bindparam
 from sqlalchemy import PrimaryKeyConstraint, ForeignKeyConstraint
 
 from ...utils.prolog import PrologDescription, PrologTrial, PrologRepr
-from ...utils.prolog import PrologAttribute, PrologNullableRepr
+from ...utils.prolog import PrologAttribute, PrologNullableRepr, PrologBoolean
 
 from .. import relational
 
@@ -81,8 +81,8 @@ class Module(AlchemyProxy):
         PrologNullableRepr("version"),
         PrologRepr("path"),
         PrologNullableRepr("code_block_id", link="code_block.id"),
-        PrologAttribute("transformed"),
-        PrologRepr("fullpath"),
+        PrologBoolean("transformed"),
+        PrologNullableRepr("fullpath"),
     ), description=(
         "informs that in a given trial (*TrialId*),\n"
         "a module with *Id* and *Name* at *Version*,\n"
-- 
2.43.0


From e0dec059147c30a12e49ca2818c5636916e82e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:04 +0000
Subject: [PATCH 73/95] fix: pair replaced objects one to one in diffs

---
 capture/noworkflow/now/models/diff.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/models/diff.py b/capture/noworkflow/now/models/diff.py
index 79fb984..00735ff 100644
--- a/capture/noworkflow/now/models/diff.py
+++ b/capture/noworkflow/now/models/diff.py
@@ -6,7 +6,8 @@
 from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
+from operator import attrgetter
 
 from future.utils import viewkeys
 
@@ -130,14 +131,17 @@ def diff_set(before, after, create_replaced=True):
     added = after - before
     replaced = set()
 
-    removed_by_name = {}
-    for element_removed in removed:
-        removed_by_name[element_removed.name] = element_removed
-    for element_added in added:
-        element_removed = removed_by_name.get(element_added.name)
-        if element_removed and create_replaced:
-            replaced.add((element_removed, element_added))
     if create_replaced:
+        # Each object replaces or is replaced by at most one object
+        removed_by_name = defaultdict(list)
+        for element_removed in sorted(removed, key=attrgetter("id")):
+            removed_by_name[element_removed.name].append(element_removed)
+        for element_added in sorted(added, key=attrgetter("id")):
+            if removed_by_name[element_added.name]:
+                replaced.add((
+                    removed_by_name[element_added.name].pop(0),
+                    element_added
+                ))
         for (element_removed, element_added) in replaced:
             removed.discard(element_removed)
             added.discard(element_added)
-- 
2.43.0


From 5f9bb94c1efe1617b75b9ed72cb8e6e84622c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:16 +0000
Subject: [PATCH 74/95] fix: sizes of graphs answered from the cache

---
 capture/noworkflow/now/models/graphs/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capture/noworkflow/now/models/graphs/structures.py b/capture/noworkflow/now/models/graphs/structures.py
index 726335f..ecdc359 100644
--- a/capture/noworkflow/now/models/graphs/structures.py
+++ b/capture/noworkflow/now/models/graphs/structures.py
@@ -63,6 +63,9 @@ def prepare_cache(get_type):
                             if not result[0]:
                                 continue
                             cache_session.close()                                # pylint: disable=no-member
+                            # The size is configured by the current object
+                            result[1]["width"] = self.width
+                            result[1]["height"] = self.height
                             return result
                     except (ValueError, exc.SQLAlchemyError):
                         traceback.print_exc()
-- 
2.43.0


From b13ff278f2807e3a3fc8b27c583470289d270757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:16 +0000
Subject: [PATCH 75/95] fix: activations that did not finish have no duration

---
 capture/noworkflow/now/persistence/models/activation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capture/noworkflow/now/persistence/models/activation.py b/capture/noworkflow/now/persistence/models/activation.py
index f06d831..83b6cb2 100644
--- a/capture/noworkflow/now/persistence/models/activation.py
+++ b/capture/noworkflow/now/persistence/models/activation.py
@@ -378,6 +378,9 @@ class Activation(AlchemyProxy):
         >>> activation.duration
         42000000
         """
+        if self.finish_checkpoint is None:
+            # The activation did not finish
+            return 0
         return int(
             (self.finish_checkpoint - self.start_checkpoint) * 1000000
         )
-- 
2.43.0


From a27d5fed1b75ce9c0e948de9ca8f06db6e070e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:16 +0000
Subject: [PATCH 76/95] fix: graphs keep the activations started by generators
 and match whole sub-calls

---
 .../now/models/graphs/trial_graph.py          | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/trial_graph.py b/capture/noworkflow/now/models/graphs/trial_graph.py
index 8f92d0c..3b7d766 100644
--- a/capture/noworkflow/now/models/graphs/trial_graph.py
+++ b/capture/noworkflow/now/models/graphs/trial_graph.py
@@ -21,6 +21,25 @@ from .structures import Graph
 Node = DotDict  # pylint: disable=invalid-name
 
 
+def preorder_activations(activations):
+    """Sort activations in preorder: every activation comes right after its
+    caller or after the activations started by its previous sibling.
+    The body of generators runs after other activations started, hence the
+    order of the ids is not enough
+    """
+    activations = sorted(activations, key=lambda activation: activation.id)
+    ids = {activation.id for activation in activations}
+    calls = defaultdict(list)
+    for activation in activations:
+        caller_id = activation.caller_id
+        calls[caller_id if caller_id in ids else None].append(activation)
+    stack = calls[None][::-1]
+    while stack:
+        activation = stack.pop()
+        yield activation
+        stack.extend(reversed(calls[activation.id]))
+
+
 class Summarization(object):
     """Summarization algorithm
 
@@ -149,7 +168,7 @@ class Summarization(object):
             self.add_edge(last, node, 'call')
         else:
             self.merge(node, call)
-            node.caller_id = max(node.caller_id, call.caller_id)
+            node.caller_id = call.caller_id
         return node
 
     def insert_return(self, last):
@@ -175,7 +194,7 @@ class Summarization(object):
             node = self.insert_node(call, self.nodes[last.parent_index], match)
         else:
             self.merge(node, call)
-            node.caller_id = max(node.caller_id, call.caller_id)
+            node.caller_id = call.caller_id
         self.add_edge(last, node, 'sequence')
         return node
 
@@ -258,8 +277,7 @@ class NoMatchSummarization(LineNameSummarization):
 
     def insert_sequence(self, call, last):
         """Inser last caller and comma to caller"""
-        if not last.children:
-            self.nodes[last.parent_index].repr += last.repr + ","
+        self.nodes[last.parent_index].repr += last.repr + ","
         return super(NoMatchSummarization, self).insert_sequence(call, last)
 
 
@@ -419,22 +437,26 @@ class TrialGraph(Graph):
     @cache("tree")
     def tree(self):
         """Convert tree structure into dict tree structure"""
-        return self.result(TreeSummarization(self.trial.activations))
+        return self.result(TreeSummarization(
+            preorder_activations(self.trial.activations)))
 
     @cache("no_match")
     def no_match(self):
         """Convert tree structure into dict graph without node matchings"""
-        return self.result(NoMatchSummarization(self.trial.activations))
+        return self.result(NoMatchSummarization(
+            preorder_activations(self.trial.activations)))
 
     @cache("exact_match")
     def exact_match(self):
         """Convert tree structure into dict graph and match equal calls"""
-        return self.result(StructureSummarization(self.trial.activations))
+        return self.result(StructureSummarization(
+            preorder_activations(self.trial.activations)))
 
     @cache("namespace_match")
     def namespace_match(self):
         """Convert tree structure into dict graph and match namespaces"""
-        return self.result(LineNameSummarization(self.trial.activations))
+        return self.result(LineNameSummarization(
+            preorder_activations(self.trial.activations)))
 
     @cache("definition_tree")
     def definition_tree(self):
-- 
2.43.0


From de5d133af91711d4609c1074b0d2507df0fe5ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 77/95] fix: accesses are internal only inside the folder of
 the trial

---
 capture/noworkflow/now/persistence/models/file_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/models/file_access.py b/capture/noworkflow/now/persistence/models/file_access.py
index bd55319..4aded35 100644
--- a/capture/noworkflow/now/persistence/models/file_access.py
+++ b/capture/noworkflow/now/persistence/models/file_access.py
@@ -198,7 +198,7 @@ class FileAccess(AlchemyProxy):
         """
         return (
             (not os.path.isabs(self.name)) or
-            self.trial.path in self.name
+            self.name.startswith(os.path.join(self.trial.path, ""))
         )
 
     @classmethod  # query
-- 
2.43.0


From 963d98b01d2968427e8c1d9c1504b5c512740684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 78/95] fix: derivations through arguments of hidden calls are
 shown in dataflow graphs

---
 capture/noworkflow/now/models/dependency_graph/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/dependency_graph/filters.py b/capture/noworkflow/now/models/dependency_graph/filters.py
index 9f4af51..9c61574 100644
--- a/capture/noworkflow/now/models/dependency_graph/filters.py
+++ b/capture/noworkflow/now/models/dependency_graph/filters.py
@@ -23,7 +23,7 @@ class Filter(object):
             same_id = source.node_id == target.node_id
             if same_id:
                 return False
-            isargument = any(attr.get("_type").startswith("argument")
+            isargument = all(attr.get("_type").startswith("argument")
                              for attr in attrs)
             if isinstance(source, ClusterNode) and isargument:
                 return False
-- 
2.43.0


From 8f1094253bd4ead9751dd78109202d927d0c7f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 79/95] fix: escape backslashes and keys in dataflow graphs

---
 capture/noworkflow/now/models/dependency_graph/attributes.py | 5 +++++
 .../noworkflow/now/models/dependency_graph/dot_visitor.py    | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/models/dependency_graph/attributes.py b/capture/noworkflow/now/models/dependency_graph/attributes.py
index 43b44a1..c55d8b4 100644
--- a/capture/noworkflow/now/models/dependency_graph/attributes.py
+++ b/capture/noworkflow/now/models/dependency_graph/attributes.py
@@ -9,6 +9,11 @@ from copy import copy
 from future.utils import viewitems
 
 
+def quote(string):
+    """Escape text of quoted string in DOT format"""
+    return string.replace("\\", "\\\\").replace('"', '\\"')
+
+
 class Attributes(object):
     """Represent an attributes configuration for DOT"""
 
diff --git a/capture/noworkflow/now/models/dependency_graph/dot_visitor.py b/capture/noworkflow/now/models/dependency_graph/dot_visitor.py
index fb1ca36..5cc0986 100644
--- a/capture/noworkflow/now/models/dependency_graph/dot_visitor.py
+++ b/capture/noworkflow/now/models/dependency_graph/dot_visitor.py
@@ -10,7 +10,7 @@ from functools import reduce
 from future.utils import viewitems
 
 from .base_visitor import ClusterVisitor
-from .attributes import Attributes
+from .attributes import Attributes, quote
 
 
 def escape(string, size=55):
@@ -20,7 +20,7 @@ def escape(string, size=55):
     if len(string) > size:
         half_size = (size - 5) // 2
         string = string[:half_size] + " ... " + string[-half_size:]
-    return "" if string is None else string.replace('"', '\\"')
+    return quote(string)
 
 
 class DotVisitor(ClusterVisitor):
-- 
2.43.0


From 8300f6e5164db7ae65ca8c4eac084fa415778fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:29 +0000
Subject: [PATCH 80/95] fix: prospective dataflow graphs with limited depth

---
 capture/noworkflow/now/models/dependency_graph/clusterizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/dependency_graph/clusterizer.py b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
index dc65f36..8cf7cba 100644
--- a/capture/noworkflow/now/models/dependency_graph/clusterizer.py
+++ b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
@@ -333,7 +333,7 @@ class ProspectiveClusterizer(Clusterizer):
             self.process_activation(activation, evaluation, cluster, False)
             for dep in chain(evaluation.dependencies, evaluation.dependents):
                 dep_act_node_id = EvaluationNode.get_node_id(dep.activation_id)
-                dep_cluster = created[dep_act_node_id][1]
+                dep_cluster = created.get(dep_act_node_id, (None, None))[1]
                 if not isinstance(dep_cluster, ClusterNode):
                     continue
                 self.process_evaluation(dep, dep_cluster, False)
-- 
2.43.0


From e71ea1b07b5df6265162e869f14aa0c8abb89d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:29 +0000
Subject: [PATCH 81/95] fix: quote keys of members in dataflow graphs

---
 capture/noworkflow/now/models/dependency_graph/clusterizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/models/dependency_graph/clusterizer.py b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
index 8cf7cba..de02c91 100644
--- a/capture/noworkflow/now/models/dependency_graph/clusterizer.py
+++ b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
@@ -14,7 +14,7 @@ from future.utils import viewitems
 from ...persistence.models import UniqueFileAccess, Evaluation
 
 from .attributes import EMPTY_ATTR, ACCESS_ATTR, PROPAGATED_ATTR
-from .attributes import REFERENCE_ATTR
+from .attributes import REFERENCE_ATTR, quote
 from .config import DependencyConfig
 from .node_types import AccessNode
 from .node_types import ActivationNode, ClusterNode, EvaluationNode
@@ -206,7 +206,7 @@ class Clusterizer(object):
             if self.config.show_timestamps:
                 extra = "\n{}".format(member.checkpoint)
             dep_attributes = attributes.update({
-                "label": "{}{}".format(member.key, extra),
+                "label": quote("{}{}".format(member.key, extra)),
                 "_type": "member",
                 "_checkpoint": member.checkpoint,
                 "_key": member.key,
-- 
2.43.0


From e66763ea8e7869d891ae7470af0f0f8bf51f45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:15 +0000
Subject: [PATCH 82/95] fix: the history reflects what is stored when it is
 asked for

---
 .../now/models/graphs/history_graph.py        | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index c30d8d3..7940bde 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -31,8 +31,6 @@ class HistoryGraph(Graph):
 
     Present history graph on Jupyter and on command line"""
 
-    cache = {}
-
     def __init__(self, history, width=500, height=500):
         self.history = weakref.proxy(history)
         self.use_cache = True
@@ -50,11 +48,15 @@ class HistoryGraph(Graph):
 
         key = (
             self.history.script, self.history.status, self.history.summarize,
-            Trial.count(None,self.history.expId)
+            self.history.expId
         )
-        
-        if self.use_cache and key in self.cache:
-            return self.cache[key]
+        cache = self._cache()
+
+        if self.use_cache and key in cache:
+            return cache[key]
+
+        # Trials may have been changed by other processes since they were loaded
+        relational.session.expire_all()
 
         tmap = self._load_trials(Trial.reverse_trials(MAXTRIALS,None,self.history.expId))
         graph = self._create_graph(tmap)
@@ -77,10 +79,24 @@ class HistoryGraph(Graph):
             "scripts": list(self.history.scripts),
         }
         if self.use_cache:
-            self.cache[key] = result
+            cache[key] = result
 
         return result
 
+    def _cache(self):  # pylint: disable=no-self-use
+        """Return the cache of the current session, with the results that were
+        created from what is stored now"""
+        session = relational.session
+        stored = [
+            [tuple(row) for row in session.query(
+                *model.__table__.columns
+            ).order_by(model.id)]
+            for model in (Trial.m, Tag.m, User.m)
+        ]
+        if session.info.get("history", (None,))[0] != stored:
+            session.info["history"] = (stored, {})
+        return session.info["history"][1]
+
     def graph(self):
         """Return history_data as a dict graph"""
         result = self.history_data()
-- 
2.43.0


From 083f4b6f905cc22f78e1bcfc0323015613486a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:02 +0000
Subject: [PATCH 83/95] fix: arguments do not hide other dependencies between
 the same nodes

---
 .../noworkflow/now/models/dependency_graph/clusterizer.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/capture/noworkflow/now/models/dependency_graph/clusterizer.py b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
index de02c91..57eadf9 100644
--- a/capture/noworkflow/now/models/dependency_graph/clusterizer.py
+++ b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
@@ -198,6 +198,11 @@ class Clusterizer(object):
                 "_type": dep.type,
                 "_checkpoint": dep.dependent.checkpoint, # slow
             })
+            if not dep.type.startswith("argument"):
+                # Prevail over an equal attribute of an argument, since
+                # arrows that only have arguments can be filtered out
+                departing_arrows[source][target].discard(dep_attributes)
+                arriving_arrows[target][source].discard(dep_attributes)
             departing_arrows[source][target].add(dep_attributes)
             arriving_arrows[target][source].add(dep_attributes)
 
-- 
2.43.0


From 3d2bc2302dc809d1142768d71611a53d60f8df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:26 +0000
Subject: [PATCH 84/95] fix: queries with an index out of the range find no
 evaluation

---
 capture/noworkflow/now/cmd/cmd_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_evaluation.py b/capture/noworkflow/now/cmd/cmd_evaluation.py
index 3b1a471..e7dc933 100644
--- a/capture/noworkflow/now/cmd/cmd_evaluation.py
+++ b/capture/noworkflow/now/cmd/cmd_evaluation.py
@@ -93,7 +93,7 @@ def query_evaluations(args, prefix=""):
     argindex = getattr(args, prefix + 'index', None)
     if argindex is not None:
         index = argindex- 1 # 1-based index
-        if index > len(result):
+        if not 0 <= index < len(result):
             result = []
         else:
             result = [result[index]]
-- 
2.43.0


From be192a4ee7e3531a9e473fa5c09ad7bd41dd0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:27 +0000
Subject: [PATCH 85/95] fix: repeated evaluations do not change whether others
 derive from them

---
 capture/noworkflow/now/persistence/models/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/models/evaluation.py b/capture/noworkflow/now/persistence/models/evaluation.py
index 2057497..c559725 100644
--- a/capture/noworkflow/now/persistence/models/evaluation.py
+++ b/capture/noworkflow/now/persistence/models/evaluation.py
@@ -230,4 +230,4 @@ class Evaluation(AlchemyProxy):
                 evaluation: evaluation in found
                 for evaluation in evaluations
             }
-        return len(found) == len(evaluations)
+        return len(found) == len(set(evaluations))
-- 
2.43.0


From 31c6301755ea53aefa91ddeefacc2579faabd9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:52 +0000
Subject: [PATCH 86/95] fix: queries by column find the evaluations at the
 column

---
 capture/noworkflow/now/cmd/cmd_evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_evaluation.py b/capture/noworkflow/now/cmd/cmd_evaluation.py
index e7dc933..bf559ca 100644
--- a/capture/noworkflow/now/cmd/cmd_evaluation.py
+++ b/capture/noworkflow/now/cmd/cmd_evaluation.py
@@ -61,8 +61,8 @@ def query_evaluations(args, prefix=""):
         filters.append(CodeComponent.m.last_char_line <= line)
     column = getattr(args, prefix + 'column', None)
     if column is not None:
-        filters.append(CodeComponent.m.first_char_column >= column)
-        filters.append(CodeComponent.m.last_char_column <= column)
+        filters.append(CodeComponent.m.first_char_column <= column)
+        filters.append(CodeComponent.m.last_char_column >= column)
     cell = getattr(args, prefix + 'cell', None)
     if cell is not None:
         query = query.join(Activation.m, (
-- 
2.43.0


From d52dcc2ada57e122c59026f11fcd766e0a11241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:16 +0000
Subject: [PATCH 87/95] fix: files are sent by the current versions of Flask

---
 capture/noworkflow/now/vis/views.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 95cecdf..12131f4 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -76,6 +76,13 @@ def zipper(response):
     response.headers['Content-Length'] = len(response.data)
     return response
 
+def send_named_file(data, name, **kwargs):
+    """Send file with the argument name of the installed version of Flask"""
+    try:
+        return send_file(data, download_name=name, **kwargs)
+    except TypeError:
+        return send_file(data, attachment_filename=name, **kwargs)
+
 def getRequestContent():
     encoding = request.headers.get('Content-Encoding', '')
     if 'gzip' in encoding.lower():
@@ -169,7 +176,7 @@ def getExtendedAnnotationContent(id):
     extention=annt.annotationFormat
     if(extention=="plainText"):
         extention="txt"
-    return send_file(IO(bytes(annt.annotation, 'utf-8')),mimetype='application/octet-stream',as_attachment=True,attachment_filename=id+"."+extention)
+    return send_named_file(IO(bytes(annt.annotation, 'utf-8')),id+"."+extention,mimetype='application/octet-stream',as_attachment=True)
 
 
 @app.route("/experiments/<expCode>/extendedAnnotation", methods=['Post'])
@@ -308,9 +315,9 @@ def dataflow(tid):
     """Generates the dafalow of a trial """ 
     trial = Trial(tid)
     display = DotDisplay(trial.dot.export_text(), format="pdf")
-    return send_file(
+    return send_named_file(
         io.BytesIO(display.display_result()["application/pdf"]),
-        attachment_filename='flow.pdf',
+        'flow.pdf',
         mimetype="application/pdf"
     )
 
@@ -318,9 +325,9 @@ def dataflow(tid):
 @app.route("/trials/<tid>/<script_hash>/<name>")    
 def get_script(tid, script_hash, name):
     """Returns the executed script"""
-    return send_file(
+    return send_named_file(
         io.BytesIO(content.get(script_hash)),
-        attachment_filename=name + '.py'
+        name + '.py'
     )
 
 @app.route("/experiments/<expCode>/trials/files/<file_hash>/<file_ext>")
@@ -328,9 +335,9 @@ def get_script(tid, script_hash, name):
 def get_file(file_hash, file_ext):
     """Returns a file used in the trial"""
     name = file_hash + file_ext
-    return send_file(
+    return send_named_file(
         io.BytesIO(content.get(file_hash)),
-        attachment_filename=name
+        name
     )
 
 @app.route("/experiments/<expCode>/trials/<tid>/<graph_mode>/<cache>.json")
-- 
2.43.0


From 4496a90834e01d81e97d5eaa071b045ba13d0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:16 +0000
Subject: [PATCH 88/95] fix: views of trials of experiments accept the
 experiment

---
 capture/noworkflow/now/vis/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 12131f4..274ce94 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -311,7 +311,7 @@ def trials(expId=None):
 #generate dafalowdataflow
 @app.route("/experiments/<expCode>/trials/<tid>/flow.pdf")
 @app.route("/trials/<tid>/flow.pdf")
-def dataflow(tid):
+def dataflow(tid, expCode=None):
     """Generates the dafalow of a trial """ 
     trial = Trial(tid)
     display = DotDisplay(trial.dot.export_text(), format="pdf")
@@ -323,7 +323,7 @@ def dataflow(tid):
 
 @app.route("/experiments/<expCode>/trials/<tid>/<script_hash>/<name>") 
 @app.route("/trials/<tid>/<script_hash>/<name>")    
-def get_script(tid, script_hash, name):
+def get_script(tid, script_hash, name, expCode=None):
     """Returns the executed script"""
     return send_named_file(
         io.BytesIO(content.get(script_hash)),
@@ -332,7 +332,7 @@ def get_script(tid, script_hash, name):
 
 @app.route("/experiments/<expCode>/trials/files/<file_hash>/<file_ext>")
 @app.route("/trials/files/<file_hash>/<file_ext>")
-def get_file(file_hash, file_ext):
+def get_file(file_hash, file_ext, expCode=None):
     """Returns a file used in the trial"""
     name = file_hash + file_ext
     return send_named_file(
@@ -387,7 +387,7 @@ def file_accesses(tid,expCode=None):
 @app.route("/experiments/<expCode>/trials/<tid>/activations/<aid>")
 @app.route("/trials/<tid>/activations/<aid>.json")
 @app.route("/trials/<tid>/activations/<aid>")
-def activations(tid, aid):
+def activations(tid, aid, expCode=None):
     """Respond trial activation as text"""
     activation = Activation((tid, aid))
     global_evaluations = activation.filter_evaluations_by_type("global")
-- 
2.43.0


From 8e1174d932b0d9d8aa67634176023a607e889d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:16 +0000
Subject: [PATCH 89/95] fix: editing or deleting an unknown remote reports that
 it was not found

---
 capture/noworkflow/now/vis/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 274ce94..fe85b07 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -582,7 +582,7 @@ def add_remote(remote_name, remote_url):
 @app.route("/collab/remotes/edit/<remote_new_name>/<path:remote_url>")
 def edit_remote(remote_new_name, remote_url):
     remote_url_list = relational.session.query(Remote.m).filter(Remote.m.server_url == remote_url).all()
-    if(len(remote_url) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
+    if(len(remote_url_list) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
     remote = remote_url_list[0]
     remote.name = remote_new_name
     relational.session.commit()
@@ -591,7 +591,7 @@ def edit_remote(remote_new_name, remote_url):
 @app.route("/collab/remotes/delete/<path:remote_url>")
 def delete_remote(remote_url):
     remote_url_list = relational.session.query(Remote.m).filter(Remote.m.server_url == remote_url).all()
-    if(len(remote_url) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
+    if(len(remote_url_list) <= 0): return jsonify(text="Remote url " + remote_url  + " not found"), 400
     remote = remote_url_list[0]
     if remote.used: remote.hide = True
     else: relational.session.delete(remote)
-- 
2.43.0


From 9df2e6eeac7e4cd301a65883afe5fa8aea1b46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:31 +0000
Subject: [PATCH 90/95] fix: the history of an experiment accepts parents
 outside the experiment

---
 capture/noworkflow/now/models/graphs/history_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index 7940bde..97d2cd2 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -174,7 +174,7 @@ class HistoryGraph(Graph):
 
         for trial in viewvalues(trial_map):
             graph[trial.id][trial.id] = 0
-            if trial.parent_id is not None:
+            if trial.parent_id in trial_map:
                 graph[trial.id][trial.parent_id] = 1
 
         return graph
-- 
2.43.0


From 3e3e72d05d23b38ac10e7f60fe6f0c5655afc044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:15 +0000
Subject: [PATCH 91/95] fix: the package context holds the files inside the
 directory only

---
 .../now/collection/prov_deployment/py3module.py          | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_deployment/py3module.py b/capture/noworkflow/now/collection/prov_deployment/py3module.py
index 2024d2c..9cadc64 100644
--- a/capture/noworkflow/now/collection/prov_deployment/py3module.py
+++ b/capture/noworkflow/now/collection/prov_deployment/py3module.py
@@ -5,6 +5,7 @@
 """Python 3 Import Hook"""
 
 import inspect
+import os
 from functools import wraps
 from importlib.machinery import PathFinder, SourceFileLoader
 from importlib.abc import Loader
@@ -42,6 +43,12 @@ def find_file_in_path(path):
     return path
 
 
+def is_inside(path, directory):
+    """Check if the path is inside the directory"""
+    directory = os.path.join(os.path.abspath(directory), "")
+    return os.path.abspath(path).startswith(directory)
+
+
 def create_generic_loader(metascript, loader):
 
     if hasattr(loader, 'exec_module'):  # new module format
@@ -144,7 +151,7 @@ def create_source_loader(metascript, loader):
             with content.use_safe_open():
                 source_path = loader.get_filename(module.__name__)
                 required = 2
-                required -= int(source_path.startswith(metascript.dir))
+                required -= int(is_inside(source_path, metascript.dir))
                 create_module = not metascript.bypass_modules
 
                 if metascript.context >= required:
-- 
2.43.0


From 17bcf3e03295219be327ab19bef38c389fe31fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:15 +0000
Subject: [PATCH 92/95] fix: classes and exceptions of calls below the depth
 limit are not recorded

---
 .../now/collection/prov_execution/collector.py      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e4e2dac..3c53fc2 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -548,6 +548,8 @@ class Collector(object):
         """Collection activation exc value"""
         # pylint: disable=too-many-arguments, unused-argument
         # ToDo: relate evaluation to exception
+        if not activation.active:
+            return
         evaluation = self.evaluate_depa(activation, code_id, value, None)
         if name:
             self.owner(activation, name).context[name] = evaluation
@@ -1662,10 +1664,13 @@ class Collector(object):
         # The class body does not see the activation of functions and classes
         # around it, since it defines __now_activation__
         last_activation = self.class_definitions[-1].closure
-        activation = self.start_activation(
-            class_name, code_component_id, code_component_id,
-            last_activation
-        )
+        if last_activation.active:
+            activation = self.start_activation(
+                class_name, code_component_id, code_component_id,
+                last_activation
+            )
+        else:
+            activation = self.dry_activation(last_activation)
         activation.closure = last_activation
         activation.is_class = True
         self.class_definitions[-1].activation = activation
-- 
2.43.0


From 0a1e8ce1991611f2f9ae287e8f3e6c423e926fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:11 +0000
Subject: [PATCH 93/95] fix: values with surrogates do not prevent the trial
 from being stored

---
 .../now/persistence/relational_database.py    | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/relational_database.py b/capture/noworkflow/now/persistence/relational_database.py
index dee7850..bbda780 100644
--- a/capture/noworkflow/now/persistence/relational_database.py
+++ b/capture/noworkflow/now/persistence/relational_database.py
@@ -10,7 +10,7 @@ import threading
 
 from os.path import join
 
-from sqlalchemy import create_engine, inspect, text
+from sqlalchemy import create_engine, event, inspect, text
 from sqlalchemy.ext.declarative import declarative_base
 from sqlalchemy.orm import scoped_session, sessionmaker
 
@@ -20,6 +20,31 @@ from ..utils.io import print_msg
 DB_FILENAME = "db.sqlite"
 
 
+def encodable(value):
+    """Escape surrogates, since the database can not encode them"""
+    if isinstance(value, str):
+        try:
+            value.encode("utf-8")
+        except UnicodeError:
+            return value.encode("utf-8", "backslashreplace").decode("utf-8")
+    return value
+
+
+def encodable_row(row):
+    """Escape surrogates in the parameters of a statement"""
+    if isinstance(row, dict):
+        return {key: encodable(value) for key, value in row.items()}
+    return tuple(encodable(value) for value in row)
+
+
+def encodable_parameters(conn, cursor, statement, parameters, context,           # pylint: disable=too-many-arguments, unused-argument
+                         executemany):
+    """Escape surrogates in all parameters before executing a statement"""
+    if executemany:
+        return statement, [encodable_row(row) for row in parameters]
+    return statement, encodable_row(parameters)
+
+
 class RelationalDatabase(object):
     """Relational Database deal with SQLite connection"""
 
@@ -51,6 +76,8 @@ class RelationalDatabase(object):
         self.engine = create_engine(
             "sqlite://" + ("/" if self.db_path else "") + self.db_path,
             echo=False)
+        event.listen(self.engine, "before_cursor_execute",
+                     encodable_parameters, retval=True)
         self.session_factory.configure(bind=self.engine, autoflush=False,
                                        expire_on_commit=True)
         self._session_map = {}
-- 
2.43.0


From 6866825be45589d6b6a04c91f8b35ade7ff2ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:29 +0000
Subject: [PATCH 94/95] fix: the database is created inside paths that have
 characters special in urls

---
 capture/noworkflow/now/persistence/relational_database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/relational_database.py b/capture/noworkflow/now/persistence/relational_database.py
index bbda780..fba8e80 100644
--- a/capture/noworkflow/now/persistence/relational_database.py
+++ b/capture/noworkflow/now/persistence/relational_database.py
@@ -11,6 +11,7 @@ import threading
 from os.path import join
 
 from sqlalchemy import create_engine, event, inspect, text
+from sqlalchemy.engine.url import URL
 from sqlalchemy.ext.declarative import declarative_base
 from sqlalchemy.orm import scoped_session, sessionmaker
 
@@ -74,8 +75,8 @@ class RelationalDatabase(object):
             self.db_path = ""
 
         self.engine = create_engine(
-            "sqlite://" + ("/" if self.db_path else "") + self.db_path,
-            echo=False)
+            # The path may have characters that are special in urls
+            URL.create("sqlite", database=self.db_path or None), echo=False)
         event.listen(self.engine, "before_cursor_execute",
                      encodable_parameters, retval=True)
         self.session_factory.configure(bind=self.engine, autoflush=False,
-- 
2.43.0


From f0f013463a178bbb191aab2004e881b643a9360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:40 +0000
Subject: [PATCH 95/95] fix: queries by cell number do not match cells with
 longer numbers

---
 capture/noworkflow/now/cmd/cmd_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/cmd/cmd_evaluation.py b/capture/noworkflow/now/cmd/cmd_evaluation.py
index bf559ca..ead0b0b 100644
--- a/capture/noworkflow/now/cmd/cmd_evaluation.py
+++ b/capture/noworkflow/now/cmd/cmd_evaluation.py
@@ -69,7 +69,7 @@ def query_evaluations(args, prefix=""):
             (Activation.m.trial_id == EvaluationM.m.trial_id)
             & (Activation.m.id == EvaluationM.m.activation_id)
         ))
-        filters.append(Activation.m.name.like('<ipython-input-{}%'.format(cell)))
+        filters.append(Activation.m.name.like('<ipython-input-{}-%'.format(cell)))
     code = getattr(args, prefix + 'code', None)
     if code is not None:
         filters.append(CodeComponent.m.name == code)
-- 
2.43.0

